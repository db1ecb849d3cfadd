-------------------------------- MODULE Text --------------------------------
(* Texts: random declarations written down in random ways, possibly damaged,   *)
(* and read back.   author -> write -> (damage)* -> read -> author ...         *)
(* Undamaged text must read back as what was authored whatever its layout;     *)
(* every text goes to Out with the tokens, positions and declarations (or the  *)
(* refusal) that the reference lexer and parser give.                          *)
EXTENDS Syntax, CSV, Json
CONSTANTS Out, Damage     \* % of texts that are damaged
VARIABLES ph, ast, txt, hurt, n, got
vars == <<ph, ast, txt, hurt, n, got>>

Rnd(lo, hi) == RandomElement(lo..hi)
Chance(p)   == RandomElement(1..100) <= p
Of(s)       == s[RandomElement(1..Len(s))]
Opt(p, x)   == IF Chance(p) THEN <<x>> ELSE <<>>

\* ---------------------------------------------------------------- authoring (any declarations, well-typed or not)
Ids == <<"a", "b2", "x_y", "T1", "Rec", "types", "u8x", "u8le", "i8le", "asx", "_", "_1", "import_", "containers", "u12", "u256", "f16", "v32", "len", "default1", "truex", "Type", "TRUE",
         "pad", "e", "x", "x1f", "to", "fro", "i128leu", "Default", "enum_", "bitfields", "boolean", "constant", "u", "i", "f", "f3", "f644">>
Ints == <<"0", "1", "7", "10", "00", "007", "255", "256", "65536", "0x0", "0x1f", "0xFF", "0xdeadBEEF", "0x00a", "18446744073709551616", "340282366920938463463374607431768211455", "123456789">>
ScalSeq == <<"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128">>
BinOps == <<"||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "?:">>
RECURSIVE RBytes(_)
RBytes(k) == IF k = 0 THEN <<>> ELSE <<Of(<<0, 1, 7, 10, 13, 9, 32, 34, 47, 42, 48, 57, 65, 70, 71, 92, 97, 102, 103, 120, 127, 128, 195, 255, 1, 11>>)>> \o RBytes(k - 1)
RECURSIVE SX(_)
RECURSIVE SXs(_, _)
RECURSIVE ST(_)
RECURSIVE SF(_)
RECURSIVE SItems(_, _)
RECURSIVE SVars(_, _, _, _)
RECURSIVE SXfs(_, _)
RECURSIVE SParams(_, _)
SXs(k, d) == IF k = 0 THEN <<>> ELSE <<SX(d)>> \o SXs(k - 1, d)
SX(d) ==
  LET c == IF d <= 0 THEN Rnd(1, 6) ELSE Rnd(1, 17) IN
  CASE c = 1 -> [k |-> "int", txt |-> Of(Ints), suf |-> Opt(30, Of(ScalSeq))]
    [] c = 2 -> [k |-> "str", b |-> RBytes(Rnd(0, 5))]
    [] c = 3 -> [k |-> "bool", v |-> Chance(50)]
    [] c = 4 -> [k |-> "ev", e |-> Of(Ids), v |-> Of(Ids)]
    [] c \in 5..6 -> [k |-> "id", n |-> Of(Ids)]
    [] c = 7 -> [k |-> "call", f |-> Of(Ids), a |-> SXs(Rnd(0, 3), d - 1)]
    [] c = 8 -> [k |-> "un", op |-> Of(<<"!", "-", "~">>), x |-> SX(d - 1)]
    [] c = 9 -> [k |-> "cast", x |-> SX(d - 1), ty |-> ST(IF Chance(80) THEN 0 ELSE 1)]
    [] c = 10 -> [k |-> "idx", x |-> SX(d - 1), i |-> SX(d - 1)]
    [] c = 11 -> [k |-> "mem", x |-> SX(d - 1), m |-> Of(Ids)]
    [] c = 12 -> [k |-> "tern", c |-> SX(d - 1), t |-> SX(d - 1), f |-> SX(d - 1)]
    [] OTHER -> [k |-> "bin", op |-> Of(BinOps), l |-> SX(d - 1), r |-> SX(d - 1)]
SVars(i, k, df, d) ==
  IF i > k THEN <<>>
  ELSE LET c == Rnd(1, 10) IN
       <<[name |-> Of(Ids), val |-> IF i > 1 /\ c <= 4 THEN <<>> ELSE IF df /\ c >= 9 THEN <<>> ELSE <<SX(d)>>, dflt |-> df /\ c >= 9 /\ ~(i > 1 /\ c <= 4)]>> \o SVars(i + 1, k, df, d)
SItems(k, d) ==
  IF k = 0 THEN <<>>
  ELSE <<IF Chance(15) THEN [k |-> "pad", len |-> SX(1)] ELSE [k |-> "f", name |-> Of(Ids), f |-> SF(d)]>> \o SItems(k - 1, d)
RECURSIVE SFlags(_)
SFlags(k) == IF k = 0 THEN <<>> ELSE <<Of(Ids)>> \o SFlags(k - 1)
SSc(d) == LET s == Rnd(d, 17) IN IF s < 10 THEN [s |-> ScalSeq[s + 1], e |-> "be"] ELSE [s |-> <<"u16", "u32", "u64", "u128", "i16", "i32", "i64", "i128">>[s - 9], e |-> "le"]
ST(d) ==
  LET c == IF d <= 0 THEN Rnd(1, 6) ELSE Rnd(1, 14)
      s == SSc(0) IN
  CASE c <= 2 -> [k |-> "sc", s |-> s.s, e |-> s.e]
    [] c = 3 -> [k |-> "f", w |-> Of(<<4, 8>>)]
    [] c = 4 -> [k |-> "bool"]
    [] c \in 5..7 -> [k |-> "ref", name |-> Of(Ids), args |-> IF d <= 0 THEN <<>> ELSE SXs(Rnd(0, 2), d - 1)]
    [] c \in 8..10 -> LET ex == Chance(40) IN [k |-> "arr", el |-> ST(d - 1), exp |-> ex, len |-> IF ex /\ Chance(50) THEN <<>> ELSE <<SX(1)>>]
    [] c = 11 -> [k |-> "enum", s |-> s.s, e |-> s.e, items |-> SVars(1, Rnd(1, 3), TRUE, 1)]
    [] c = 12 -> [k |-> "bits", s |-> s.s, e |-> s.e, items |-> SVars(1, Rnd(1, 3), FALSE, 1)]
    [] OTHER -> [k |-> "cont", len |-> IF Chance(30) THEN <<SX(1)>> ELSE <<>>, flags |-> IF Chance(30) THEN SFlags(Rnd(1, 2)) ELSE <<>>, items |-> SItems(Rnd(0, 3), d - 1)]
SXfs(k, d) == IF k = 0 THEN <<>> ELSE <<[name |-> Of(Ids), args |-> SXs(Rnd(0, 2), d), cond |-> IF Chance(40) THEN <<SX(1)>> ELSE <<>>]>> \o SXfs(k - 1, d)
\* (a calculation swallows a following +flag as an addition, so a field has one or the other)
SF(d) == LET calc == IF Chance(20) THEN <<SX(2)>> ELSE <<>> IN
  [ty |-> ST(d), calc |-> calc, flags |-> IF calc = <<>> /\ Chance(20) THEN SFlags(Rnd(1, 2)) ELSE <<>>, cond |-> IF Chance(30) THEN <<SX(2)>> ELSE <<>>,
   xf |-> IF Chance(30) THEN SXfs(Rnd(1, 3), 1) ELSE <<>>]
SParams(k, d) == IF k = 0 THEN <<>> ELSE <<[name |-> Of(Ids), ty |-> ST(d), def |-> IF Chance(40) THEN <<SX(1)>> ELSE <<>>]>> \o SParams(k - 1, d)
RECURSIVE SImps(_)
SImps(k) == IF k = 0 THEN <<>> ELSE <<[name |-> Of(Ids), as |-> Opt(40, Of(Ids))]>> \o SImps(k - 1)
SD(d) ==
  LET c == Rnd(1, 10) IN
  CASE c = 1 -> [k |-> "ffi", name |-> Of(Ids), kind |-> Of(<<"type", "transform", "function">>)]
    [] c = 2 -> [k |-> "import", items |-> SImps(Rnd(1, 3)), from |-> RBytes(Rnd(0, 4))]
    [] c \in 3..5 -> [k |-> "const", name |-> Of(Ids), ty |-> ST(IF Chance(80) THEN 0 ELSE 1), val |-> SX(d)]
    [] OTHER -> [k |-> "type", name |-> Of(Ids), args |-> IF Chance(30) THEN SParams(Rnd(0, 3), 1) ELSE <<>>, f |-> SF(2)]
RECURSIVE SProg(_)
SProg(k) == IF k = 0 THEN <<>> ELSE <<SD(Rnd(1, 4))>> \o SProg(k - 1)

\* ---------------------------------------------------------------- writing
HexD(v, up) == IF v < 10 THEN 48 + v ELSE v + (IF up THEN 55 ELSE 87)
\* one byte of a string, given the next one
EscB(c, nx) ==
  LET two == <<92, HexD(c \div 16, Chance(50)), HexD(c % 16, Chance(50))>>
      one == <<92, HexD(c, Chance(50))>>
  IN IF c \in {34, 92} THEN (IF Chance(60) THEN <<92, c>> ELSE two)
     ELSE IF c < 16 /\ nx \notin HexC /\ Chance(30) THEN one
     ELSE IF c < 128 /\ c \notin HexC /\ Chance(15) /\ c \in 33..126 THEN <<92, c>>
     ELSE IF c < 128 /\ Chance(70) THEN <<c>> ELSE two
RECURSIVE EscR(_, _)
EscR(b, i) == IF i > Len(b) THEN <<>> ELSE EscB(b[i], IF i < Len(b) THEN b[i + 1] ELSE 34) \o EscR(b, i + 1)
Quoted(b) == <<<<34>> \o EscR(b, 1) \o <<34>>>>
W1(s) == <<BytesOf(s)>>
PrecOf == [o \in {"||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "?:"} |->
            IF o = "?:" THEN 11 ELSE CHOOSE l \in 1..10 : o \in Levels[l]]
Prec(e) == CASE e.k = "bin" -> PrecOf[e.op] [] e.k = "tern" -> 0 [] e.k = "cast" -> 11 [] e.k = "un" -> 12 [] OTHER -> 13
Comma(ss, p) == LET RECURSIVE J(_)  J(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o (IF i < Len(ss) \/ Chance(p) THEN W1(",") ELSE <<>>) \o J(i + 1) IN J(1)
RECURSIVE WX(_, _)
RECURSIVE WT(_)
RECURSIVE WF(_)
WEs(es) == W1("(") \o Comma([i \in 1..Len(es) |-> WX(es[i], 0)], 20) \o W1(")")
WX(e, need) ==
  LET p == Prec(e)
      s == CASE e.k = "int" -> W1(e.txt) \o (IF e.suf = <<>> THEN <<>> ELSE W1(e.suf[1]))
             [] e.k = "str" -> Quoted(e.b)
             [] e.k = "bool" -> W1(IF e.v THEN "true" ELSE "false")
             [] e.k = "ev" -> W1(e.e) \o W1("::") \o W1(e.v)
             [] e.k = "id" -> W1(e.n)
             [] e.k = "call" -> W1(e.f) \o WEs(e.a)
             [] e.k = "un" -> W1(e.op) \o WX(e.x, 12)
             [] e.k = "cast" -> WX(e.x, 11) \o W1(":>") \o WT(e.ty)
             [] e.k = "idx" -> WX(e.x, 13) \o W1("[") \o WX(e.i, 0) \o W1("]")
             [] e.k = "mem" -> WX(e.x, 13) \o W1(".") \o W1(e.m)
             [] e.k = "tern" -> WX(e.c, 1) \o W1("?") \o WX(e.t, 0) \o W1(":") \o WX(e.f, 1)
             [] e.op = "?:" -> WX(e.l, 11) \o W1("?:") \o WX(e.r, 12)
             [] OTHER -> WX(e.l, p) \o W1(e.op) \o WX(e.r, p + 1)
  IN IF p < need \/ Chance(8) THEN W1("(") \o s \o W1(")") ELSE s
WO(o, c, x) == IF x = <<>> THEN <<>> ELSE W1(o) \o WX(x[1], 0) \o (IF c = "" THEN <<>> ELSE W1(c))
WFl(fs) == LET RECURSIVE J(_)  J(i) == IF i > Len(fs) THEN <<>> ELSE W1("+") \o W1(fs[i]) \o J(i + 1) IN J(1)
WSc(t) == W1(IF t.e = "le" THEN t.s \o "le" ELSE t.s)
WIt(it) == W1(it.name) \o (IF it.dflt THEN W1("=") \o W1("default") ELSE WO("=", "", it.val))
WT(t) ==
  CASE t.k = "sc" -> WSc(t)
    [] t.k = "f" -> W1(IF t.w = 4 THEN "f32" ELSE "f64")
    [] t.k = "bool" -> W1("bool")
    [] t.k = "ref" -> W1(t.name) \o (IF t.args = <<>> /\ Chance(80) THEN <<>> ELSE WEs(t.args))
    [] t.k = "arr" -> WT(t.el) \o W1("[") \o (IF t.exp THEN W1("..") ELSE <<>>) \o (IF t.len = <<>> THEN <<>> ELSE WX(t.len[1], 0)) \o W1("]")
    [] t.k = "cont" -> W1("container") \o WO("[", "]", t.len) \o WFl(t.flags) \o W1("{") \o
         Comma([i \in 1..Len(t.items) |-> IF t.items[i].k = "pad" THEN W1(".") \o W1("pad") \o W1(":") \o WX(t.items[i].len, 0)
                                          ELSE W1(t.items[i].name) \o W1(":") \o WF(t.items[i].f)], 50) \o W1("}")
    [] OTHER -> W1(IF t.k = "enum" THEN "enum" ELSE "bitfield") \o WSc(t) \o W1("{") \o Comma([i \in 1..Len(t.items) |-> WIt(t.items[i])], 50) \o W1("}")
WXfs(xs) == LET RECURSIVE J(_)  J(i) == IF i > Len(xs) THEN <<>> ELSE W1("->") \o W1(xs[i].name) \o (IF xs[i].args = <<>> /\ Chance(70) THEN <<>> ELSE WEs(xs[i].args)) \o WO("{", "}", xs[i].cond) \o J(i + 1) IN J(1)
WF(f) == WT(f.ty) \o WO("=", "", f.calc) \o WFl(f.flags) \o WO("{", "}", f.cond) \o WXfs(f.xf)
WD(d) ==
  (CASE d.k = "ffi" -> W1("import_ffi") \o W1(d.name) \o W1("as") \o W1(d.kind)
     [] d.k = "import" -> W1("import") \o Comma([i \in 1..Len(d.items) |-> W1(d.items[i].name) \o (IF d.items[i].as = <<>> THEN <<>> ELSE W1("as") \o W1(d.items[i].as[1]))], 30) \o W1("from") \o Quoted(d.from)
     [] d.k = "const" -> W1("const") \o W1(d.name) \o W1(":") \o WT(d.ty) \o W1("=") \o WX(d.val, 0)
     [] OTHER -> W1("type") \o W1(d.name) \o
          (IF d.args = <<>> /\ Chance(80) THEN <<>>
           ELSE W1("(") \o Comma([i \in 1..Len(d.args) |-> W1(d.args[i].name) \o W1(":") \o WT(d.args[i].ty) \o WO("?", "", d.args[i].def)], 30) \o W1(")")) \o
          W1("=") \o WF(d.f)) \o W1(";")
WP(p) == LET RECURSIVE J(_)  J(i) == IF i > Len(p) THEN <<>> ELSE WD(p[i]) \o J(i + 1) IN J(1)

\* layout: between two tokens anything that keeps them apart, or nothing where they stay apart by themselves
Gaps == <<<<32>>, <<32>>, <<32>>, <<10>>, <<9>>, <<32, 32, 10, 32>>, <<13, 10>>, <<12>>, BytesOf("/* c */"), BytesOf("/**/"), BytesOf("/***/"), BytesOf("// note") \o <<10>>,
          <<47, 47, 10>>, BytesOf("/* a") \o <<10>> \o BytesOf(" // \" b */"), BytesOf(" //\" /* ") \o <<10>> \o <<32>>, <<47, 42, 195, 169, 42, 47>>, BytesOf("/*/ x */")>>
Lone == {40, 41, 91, 93, 123, 125, 44, 59, 126, 94, 37}     \* never part of a longer token, and never extend one
Apart(a, b) == a[Len(a)] \in Lone \/ b[1] \in Lone \/ LET la == Lex(a)  lb == Lex(b)  l == Lex(a \o b) IN
  l.ok /\ la.ok /\ lb.ok /\ Len(l.ts) = 2 /\ l.ts[1].to = Len(a) + 1
Layout(ts) == LET RECURSIVE J(_)
                  J(i) == IF i > Len(ts) THEN (IF Chance(50) THEN Of(Gaps) ELSE <<>>)
                          ELSE ts[i] \o (IF i = Len(ts) THEN <<>> ELSE IF Chance(45) /\ Apart(ts[i], ts[i + 1]) THEN <<>> ELSE IF ts[i] = <<47>> THEN <<32>> \o Of(Gaps) ELSE Of(Gaps)) \o J(i + 1)
              IN (IF Chance(30) THEN Of(Gaps) ELSE <<>>) \o J(1)

\* ---------------------------------------------------------------- damage
Junk == <<<<59>>, <<44>>, <<40>>, <<41>>, <<123>>, <<125>>, <<91>>, <<93>>, <<34>>, <<92>>, <<47>>, <<42>>, <<46>>, <<46, 46>>, <<58>>, <<62>>, <<60>>, <<61>>, <<43>>, <<45>>, <<63>>, <<64>>, <<36>>, <<39>>,
          <<48>>, <<48, 120>>, <<120>>, <<117, 56>>, <<32>>, <<10>>, BytesOf("type "), BytesOf(" default "), BytesOf("//"), BytesOf("/*"), BytesOf("*/"), BytesOf(" as "), BytesOf("true"), BytesOf("1 u8"), <<7>>, <<195, 169>>>>
Cut(s, i, k) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + k, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o x \o SubSeq(s, i, Len(s))
Whole(s) == \A i \in 1..Len(s) : s[i] >= 128 => (s[i] = 195 /\ i < Len(s) /\ s[i + 1] = 169) \/ (s[i] = 169 /\ i > 1 /\ s[i - 1] = 195)
Hurt1(s) ==
  LET c == Rnd(1, 7)  i == Rnd(1, Len(s))  l == Lex(s) IN
  IF c <= 4 /\ l.ok /\ Len(l.ts) > 1
  THEN LET k == Rnd(1, Len(l.ts))  j == Rnd(1, Len(l.ts))  a == l.ts[k]  b == l.ts[j]
           ta == SubSeq(s, a.from, a.to - 1)  tb == SubSeq(s, b.from, b.to - 1) IN
       CASE c = 1 -> Cut(s, a.from, a.to - a.from)
         [] c = 2 -> Ins(s, a.from, ta \o <<32>>)
         [] c = 3 -> Ins(Cut(s, a.from, a.to - a.from), a.from, <<32>> \o tb \o <<32>>)
         [] OTHER -> Ins(s, a.from, <<32>> \o tb \o <<32>>)
  ELSE CASE c = 5 -> Cut(s, i, 1)
         [] c = 6 -> SubSeq(s, 1, i)
         [] OTHER -> Ins(s, i, Of(Junk))
Hurt(s) == LET r == IF s = <<>> THEN s ELSE Hurt1(s) IN IF Whole(r) THEN r ELSE s

---------------------------------------------------------------------------
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, Out)
Init == ph = "author" /\ ast = <<>> /\ txt = <<>> /\ hurt = 0 /\ n = 0 /\ got = <<>>
Author == /\ ph = "author" /\ ph' = "write" /\ n' = n + 1
          /\ ast' = TLCEval(SProg(IF n < 0 THEN 0 ELSE Of(<<0, 1, 1, 1, 1, 2, 2, 3>>)))
          /\ txt' = <<>> /\ hurt' = 0 /\ UNCHANGED got
Write == /\ ph = "write" /\ ph' = IF Chance(Damage) THEN "damage" ELSE "read"
         /\ txt' = TLCEval(Layout(WP(ast)))
         /\ UNCHANGED <<ast, hurt, n, got>>
Damage1 == /\ ph = "damage" /\ ph' = IF Chance(40) THEN "damage" ELSE "read"
           /\ txt' = TLCEval(Hurt(txt)) /\ hurt' = hurt + 1
           /\ UNCHANGED <<ast, n, got>>
\* where tokens stand, one pass over the text: i the place reached, l its line, c its column
RECURSIVE PosR(_, _, _, _, _, _)
PosR(s, ts, k, i, l, c) ==
  IF k > Len(ts) THEN <<>>
  ELSE IF i = ts[k].from
       THEN <<[l |-> l, c |-> c, n |-> ts[k].to - ts[k].from, t |-> ts[k].t, x |-> IF ts[k].t = "str" THEN "" ELSE ts[k].s, b |-> IF ts[k].t = "str" THEN ts[k].b ELSE <<>>]>>
            \o PosR(s, ts, k + 1, i, l, c)
       ELSE IF s[i] = 10 THEN PosR(s, ts, k, i + 1, l + 1, 1) ELSE PosR(s, ts, k, i + 1, l, c + 1)
Case(s) == LET l == TLCEval(Lex(s))  p == TLCEval(IF l.ok THEN PProg(l.ts, 1, <<>>) ELSE [ok |-> FALSE, i |-> 0]) IN
  [txt |-> s, hurt |-> hurt, lex |-> l.ok, toks |-> IF l.ok THEN PosR(s, l.ts, 1, 1, 1, 1) ELSE <<>>, ok |-> p.ok, ast |-> IF p.ok THEN p.v ELSE <<>>, at |-> p.i]
Read == /\ ph = "read" /\ ph' = "author"
        /\ got' = TLCEval(Case(txt))
        /\ Emit(got')
        /\ UNCHANGED <<ast, txt, hurt, n>>
Next == Author \/ Write \/ Damage1 \/ Read
Spec == Init /\ [][Next]_vars
\* what is written reads back as it was meant, however it is laid out
ReadBack == ph = "author" /\ n > 0 /\ hurt = 0 => got.ok /\ got.ast = ast
\* places never run backwards, and tokens lie inside the text
Placed == ph = "author" /\ n > 0 => \A i \in 1..(Len(got.toks) - 1) : LET a == got.toks[i]  b == got.toks[i + 1] IN a.l < b.l \/ (a.l = b.l /\ a.c + a.n <= b.c)
=============================================================================
