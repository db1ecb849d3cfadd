-------------------------------- MODULE Fam --------------------------------
(* Families of programs: systematic products of language features, numbered.  *)
(* Piece j of a focus is one combination; a program holds a few pieces.  The   *)
(* random author of Gen roams; the families make sure that every combination   *)
(* of a property's features has its turn (all of them, when there is time).    *)
EXTENDS Gen

RECURSIVE DgsR(_, _, _)
DgsR(i, rs, k) == IF k > Len(rs) THEN <<>> ELSE <<i % rs[k]>> \o DgsR(i \div rs[k], rs, k + 1)
Dgs(i, rs) == DgsR(i, rs, 1)
RECURSIVE ProdR(_, _)
ProdR(rs, k) == IF k > Len(rs) THEN 1 ELSE rs[k] * ProdR(rs, k + 1)
Prod(rs) == ProdR(rs, 1)

Scs == <<"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128">>
Let == <<"a", "b", "c", "d", "e", "f", "g", "h">>
\* every program of a family has these around, and every container starts with these fields
\* (types that take them as arguments call them the same)
E1 == DType("E1", <<>>, SField([k |-> "enum", s |-> "u8", e |-> "be", items |->
        <<[name |-> "Va", val |-> <<XInt(0, "")>>, dflt |-> FALSE], [name |-> "Vb", val |-> <<>>, dflt |-> FALSE], [name |-> "Vc", val |-> <<XInt(7, "")>>, dflt |-> FALSE]>>]))
B1 == DType("B1", <<>>, SField([k |-> "bits", s |-> "u8", e |-> "be", items |->
        <<[name |-> "fa", val |-> <<XInt(1, "")>>, dflt |-> FALSE], [name |-> "fb", val |-> <<>>, dflt |-> FALSE], [name |-> "fc", val |-> <<XInt(64, "")>>, dflt |-> FALSE]>>]))
E2 == DType("E2", <<>>, SField([k |-> "enum", s |-> "i16", e |-> "le", items |->
        <<[name |-> "Va", val |-> <<XInt(300, "")>>, dflt |-> FALSE], [name |-> "Vb", val |-> <<>>, dflt |-> FALSE], [name |-> "Dz", val |-> <<>>, dflt |-> TRUE]>>]))
B2 == DType("B2", <<>>, SField([k |-> "bits", s |-> "i32", e |-> "le", items |->
        <<[name |-> "fa", val |-> <<XInt(2, "")>>, dflt |-> FALSE], [name |-> "fb", val |-> <<XInt(1024, "")>>, dflt |-> FALSE], [name |-> "fc", val |-> <<>>, dflt |-> FALSE]>>]))
HdrArgs == <<SArg("n", YSc("u8", "be"), <<>>), SArg("t", YBool, <<>>), SArg("e", YRef("E1", <<>>), <<>>), SArg("b", YRef("B1", <<>>), <<>>)>>
HdrPass == <<XId("n"), XId("t"), XId("e"), XId("b")>>
Hdr == <<SItem("n", SField(YSc("u8", "be"))), SItem("t", SField(YBool)), SItem("e", SField(YRef("E1", <<>>))), SItem("b", SField(YRef("B1", <<>>)))>>
N64(k) == XBin("+", XCast(XId("n"), YSc("u64", "be")), XInt(k, "u64"))

\* ---------------------------------------------------------------- kinds of content
K(y, simple, ds) == [y |-> y, simple |-> simple, ds |-> ds, zero |-> FALSE, wide |-> FALSE]
KZ(y, simple, ds) == [K(y, simple, ds) EXCEPT !.zero = TRUE]
A1 == DType("A1", <<>>, SField(YSc("u16", "le")))
A2 == DType("A2", <<>>, SField(YArr(YSc("u8", "be"), XInt(2, ""))))
T1 == DType("T1", <<>>, SField(YCont(<<>>, FALSE, <<SItem("f1", SField(YSc("u8", "be"))), SItem("f2", SField(YSc("u16", "be")))>>)))
T2 == DType("T2", <<SArg("p1", YSc("u8", "be"), <<>>), SArg("p2", YBool, <<XBool(TRUE)>>)>>,
        SField(YCont(<<>>, FALSE, <<SItem("f1", SField(YArr(YSc("u8", "be"), XId("p1")))), SItem("f2", [SField(YSc("u8", "be")) EXCEPT !.cond = <<XId("p2")>>]), SItem("f3", SField(YBool))>>)))
T3 == DType("T3", <<SArg("p1", YSc("u8", "be"), <<>>)>>,
        SField(YCont(<<>>, TRUE, <<SItem("Va", [SField(YSc("u8", "be")) EXCEPT !.cond = <<XBin("==", XId("p1"), XInt(0, ""))>>]),
                                   SItem("Vb", [SField(YCont(<<>>, FALSE, <<SItem("x", SField(YSc("u16", "be"))), SItem("y", SField(YBool))>>)) EXCEPT !.cond = <<XBin("<", XId("p1"), XInt(3, ""))>>]),
                                   SItem("Vc", SField(YArr(YSc("u8", "be"), XInt(2, ""))))>>)))
T4 == DType("T4", <<SArg("p1", YBool, <<>>)>>, [SField(YSc("u16", "be")) EXCEPT !.cond = <<XId("p1")>>])
KSc == [i \in 1..10 |-> K(YSc(Scs[i], "be"), TRUE, <<>>)]
KLe == [i \in 1..8 |-> K(YSc(<<"u16", "u32", "u64", "u128", "i16", "i32", "i64", "i128">>[i], "le"), TRUE, <<>>)]
KOne == <<K(YBool, TRUE, <<>>), K(YF(4), TRUE, <<>>), K(YF(8), TRUE, <<>>), K(YRef("E1", <<>>), FALSE, <<>>), K(YRef("E2", <<>>), FALSE, <<E2>>),
          K(YRef("B1", <<>>), FALSE, <<>>), K(YRef("B2", <<>>), FALSE, <<B2>>), K(YRef("A1", <<>>), FALSE, <<A1>>), K(YRef("A2", <<>>), FALSE, <<A2>>)>>
KRef == <<K(YRef("T1", <<>>), FALSE, <<T1>>), K(YRef("T2", <<XId("n")>>), FALSE, <<T2>>), K(YRef("T2", <<XInt(1, ""), XId("t")>>), FALSE, <<T2>>),
          K(YRef("T3", <<XId("n")>>), FALSE, <<T3>>), KZ(YRef("T4", <<XId("t")>>), FALSE, <<T4>>)>>
KVar == <<K(YRef("v8", <<>>), TRUE, <<>>), K(YRef("v16", <<>>), TRUE, <<>>), K(YRef("v32", <<>>), TRUE, <<>>), K(YRef("v64", <<>>), TRUE, <<>>), K(YRef("v128", <<>>), TRUE, <<>>),
          K(YRef("odd8", <<>>), TRUE, <<>>)>>
KStr == <<KZ(YRef("utf8", <<XId("n")>>), TRUE, <<>>), K(YRef("utf8", <<>>), FALSE, <<>>), KZ(YRef("utf16", <<XId("n")>>), TRUE, <<>>), KZ(YRef("blob", <<XId("n")>>), TRUE, <<>>),
          KZ(YRef("blob", <<XId("n"), XInt(2, "")>>), TRUE, <<>>), K(YRef("utf8", <<XInt(3, "")>>), TRUE, <<>>), K(YRef("utf16", <<XInt(4, "")>>), TRUE, <<>>)>>
Kinds == CASE Focus = "var" -> KVar
           [] Focus = "str" -> KStr
           [] Focus = "args" -> KRef
           [] Focus = "arr" -> KSc \o KLe \o KOne \o KRef \o KVar
           [] OTHER -> KSc \o KLe \o KOne \o KRef \o KVar \o KStr

\* ---------------------------------------------------------------- around it: repetition
Z0 == <<<<0>>, <<0, 0>>, <<13, 10>>, <<255>>, <<7, 8, 9>>>>
Wraps == CASE Focus \in {"arr", "var", "str"} -> <<"one", "c2", "n", "n1", "nn", "z", "open", "zz", "c0", "z2", "z3">>
           [] OTHER -> <<"one", "one", "c2", "n", "nn", "z", "open">>
\* [y, simple, open, zero]
Wrap(k, w) ==
  CASE w = "c2" -> [y |-> YArr(k.y, XInt(2, "")), simple |-> k.simple, open |-> FALSE, zero |-> k.zero]
    [] w = "c0" -> [y |-> YArr(k.y, XInt(0, "")), simple |-> k.simple, open |-> FALSE, zero |-> TRUE]
    [] w = "n" -> [y |-> YArr(k.y, XId("n")), simple |-> k.simple, open |-> FALSE, zero |-> TRUE]
    [] w = "n1" -> [y |-> YArr(k.y, N64(1)), simple |-> k.simple, open |-> FALSE, zero |-> k.zero]
    [] w = "nn" -> [y |-> YArr(YArr(k.y, XInt(2, "")), XId("n")), simple |-> k.simple, open |-> FALSE, zero |-> TRUE]
    [] w = "z" /\ ~k.zero -> [y |-> YTerm(k.y, <<0>>), simple |-> FALSE, open |-> FALSE, zero |-> FALSE]
    [] w = "z2" /\ ~k.zero -> [y |-> YTerm(k.y, <<13, 10>>), simple |-> FALSE, open |-> FALSE, zero |-> FALSE]
    [] w = "z3" /\ ~k.zero -> [y |-> YTerm(k.y, <<255, 0, 255>>), simple |-> FALSE, open |-> FALSE, zero |-> FALSE]
    [] w = "zz" /\ ~k.zero -> [y |-> YArr(YTerm(k.y, <<0>>), XInt(2, "")), simple |-> FALSE, open |-> FALSE, zero |-> FALSE]
    [] w = "open" /\ ~k.zero -> [y |-> YExt(k.y), simple |-> k.simple, open |-> TRUE, zero |-> TRUE]
    [] OTHER -> [y |-> k.y, simple |-> k.simple, open |-> FALSE, zero |-> k.zero]

\* ---------------------------------------------------------------- presence
CondE(c) ==
  CASE c = "t" -> <<XId("t")>>
    [] c = "nt" -> <<XUn("!", XId("t"))>>
    [] c = "n" -> <<XBin(">", XId("n"), XInt(1, "u8"))>>
    [] c = "e" -> <<XBin("==", XId("e"), XEv("E1", "Vb"))>>
    [] c = "b" -> <<XMem(XId("b"), "fb")>>
    [] c = "and" -> <<XBin("&&", XId("t"), XBin("!=", XId("n"), XInt(0, "")))>>
    [] c = "or" -> <<XBin("||", XMem(XId("b"), "fc"), XBin("==", XId("e"), XEv("E1", "Va")))>>
    [] c = "yes" -> <<XBool(TRUE)>>
    [] c = "no" -> <<XBool(FALSE)>>
    [] OTHER -> <<>>
Conds == CASE Focus = "cond" -> <<"t", "nt", "n", "e", "b", "and", "or", "yes", "no">>
           [] OTHER -> <<"", "", "t", "n">>

\* ---------------------------------------------------------------- transforms
Xf1(n, a, c) == [name |-> n, args |-> a, cond |-> c]
Xfl(x, simple) ==
  LET y(c) == IF simple THEN CondE(c) ELSE <<>> IN
  CASE x = "a" -> <<Xf1("xadd", <<>>, <<>>)>>
    [] x = "x" -> <<Xf1("xxor", <<XId("n")>>, <<>>)>>
    [] x = "f" -> <<Xf1("frame", <<XId("n")>>, <<>>)>>
    [] x = "ax" -> <<Xf1("xadd", <<XInt(3, "")>>, <<>>), Xf1("xxor", <<XInt(90, "")>>, <<>>)>>
    [] x = "af" -> <<Xf1("xadd", <<>>, <<>>), Xf1("frame", <<XInt(1, ""), XInt(7, "")>>, <<>>)>>
    [] x = "fa" -> <<Xf1("frame", <<XInt(2, "")>>, <<>>), Xf1("xadd", <<XId("n")>>, <<>>)>>
    [] x = "ac" -> <<Xf1("xadd", <<>>, y("t"))>>
    [] x = "acx" -> <<Xf1("xadd", <<XInt(5, "")>>, y("t")), Xf1("xxor", <<XInt(15, "")>>, <<>>)>>
    [] x = "axc" -> <<Xf1("xadd", <<>>, <<>>), Xf1("xxor", <<XInt(15, "")>>, y("n"))>>
    [] x = "fcxc" -> <<Xf1("frame", <<XInt(3, "")>>, y("t")), Xf1("xxor", <<XId("n")>>, y("e")), Xf1("xadd", <<>>, <<>>)>>
    [] x = "axa" -> <<Xf1("xadd", <<XInt(1, "")>>, <<>>), Xf1("xxor", <<XInt(255, "")>>, <<>>), Xf1("xadd", <<XId("n")>>, <<>>)>>
    [] x = "ff" -> <<Xf1("frame", <<XInt(1, "")>>, <<>>), Xf1("frame", <<XInt(2, ""), XId("n")>>, <<>>)>>
    [] OTHER -> <<>>
Xfs == CASE Focus = "xf" -> <<"a", "x", "f", "ax", "af", "fa", "ac", "acx", "axc", "fcxc", "axa", "ff">>
         [] Focus = "all" -> <<"", "", "", "", "x", "fa", "acx">>
         [] OTHER -> <<"", "", "", "", "ax">>

\* ---------------------------------------------------------------- where it stands
Ctxs == CASE Focus = "clen" -> <<"lc", "ln", "le", "ll", "lx", "lt", "lg", "lo", "ls">>
          [] Focus = "tag" -> <<"g0", "g1", "g2", "g3", "lg", "gx">>
          [] Focus \in {"arr", "cond"} -> <<"top", "top", "in", "cin", "lo", "st", "sta", "g1", "al", "cc">>
          [] OTHER -> <<"top", "top", "in", "cin", "lc", "lo", "st", "sta", "g1", "al", "xc", "lg">>
Args2 == HdrArgs
\* f: the field; op: it may only stand where its surroundings end
\* result: [ds, its, open]
Place(ctx, f, op, u) ==
  LET nm == "x" \o u
      zf == SItem("z" \o u, SField(YSc("u8", "be")))
      inner == IF op THEN <<SItem(nm, f)>> ELSE <<SItem(nm, f), zf>>
      rest == SItem("r" \o u, SField(YExt(YSc("u8", "be"))))
      opened == IF op THEN <<SItem(nm, f)>> ELSE <<SItem(nm, f), rest>>
      C(len, its) == SField(YCont(len, FALSE, its))
      after == SItem("y" \o u, SField(YSc("u8", "be")))
      S == DType("S" \o u, HdrArgs, C(<<>>, inner))
      SC == DType("S" \o u, HdrArgs, C(<<XInt(6, "")>>, opened))
      L == DType("L" \o u, HdrArgs, f)
      alt(c) == [f EXCEPT !.cond = c]
      u8f == SField(YSc("u8", "be"))
      G(len, its, xf) == DType("G" \o u, HdrArgs, [SField(YCont(len, TRUE, its)) EXCEPT !.xf = xf])
      g == SItem("g" \o u, SField(YRef("G" \o u, HdrPass)))
      eq(k) == <<XBin("==", XId("n"), XInt(k, ""))>>
      closed(r) == [r EXCEPT !.its = @ \o IF r.open THEN <<>> ELSE <<after>>]
  IN closed(
  CASE ctx = "in" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<>>, inner))>>, open |-> op]
    [] ctx = "cin" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, [C(<<>>, inner) EXCEPT !.cond = <<XId("t")>>])>>, open |-> op]
    [] ctx = "cc" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, [C(<<>>, <<SItem("d" \o u, [C(<<>>, inner) EXCEPT !.cond = CondE("n")])>>) EXCEPT !.cond = <<XId("t")>>])>>, open |-> op]
    [] ctx = "lc" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<XInt(9, "")>>, opened))>>, open |-> FALSE]
    [] ctx = "ln" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<XId("n")>>, inner))>>, open |-> FALSE]
    [] ctx = "le" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<N64(4)>>, opened))>>, open |-> FALSE]
    [] ctx = "lo" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<XBin("*", N64(1), XInt(4, ""))>>, opened))>>, open |-> FALSE]
    [] ctx = "ll" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, C(<<N64(6)>>, <<SItem("d" \o u, C(<<N64(2)>>, inner)), rest>>))>>, open |-> FALSE]
    [] ctx = "lx" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, [C(<<XInt(7, "")>>, inner) EXCEPT !.xf = Xfl("x", FALSE)])>>, open |-> FALSE]
    [] ctx = "lt" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, [C(<<N64(3)>>, inner) EXCEPT !.cond = <<XId("t")>>])>>, open |-> FALSE]
    [] ctx = "ls" -> [ds |-> <<SC>>, its |-> <<SItem("s" \o u, SField(YArr(YRef("S" \o u, HdrPass), XInt(2, ""))))>>, open |-> FALSE]
    [] ctx = "st" -> [ds |-> <<S>>, its |-> <<SItem("s" \o u, SField(YRef("S" \o u, HdrPass)))>>, open |-> op]
    [] ctx = "sta" /\ ~op -> [ds |-> <<S>>, its |-> <<SItem("s" \o u, SField(YArr(YRef("S" \o u, HdrPass), XId("n"))))>>, open |-> FALSE]
    [] ctx = "al" -> [ds |-> <<L>>, its |-> <<SItem("l" \o u, SField(YRef("L" \o u, HdrPass)))>>, open |-> op]
    [] ctx = "xc" -> [ds |-> <<>>, its |-> <<SItem("c" \o u, [C(<<>>, inner) EXCEPT !.xf = Xfl("ax", FALSE)])>>, open |-> op]
    [] ctx = "g0" -> [ds |-> <<G(<<>>, <<SItem("Va", alt(eq(0))), SItem("Vb", [u8f EXCEPT !.cond = eq(1)])>>, <<>>)>>, its |-> <<g>>, open |-> op]
    [] ctx = "g1" -> [ds |-> <<G(<<>>, <<SItem("Va", [u8f EXCEPT !.cond = eq(1)]), SItem("Vb", alt(<<XBin("<", XId("n"), XInt(4, ""))>>)),
                                         SItem("Vc", C(<<>>, <<SItem("q", u8f)>>))>>, <<>>)>>, its |-> <<g>>, open |-> op]
    [] ctx = "g2" -> [ds |-> <<G(<<>>, <<SItem("Va", [C(<<>>, <<SItem("p", u8f), SItem("w", f)>>) EXCEPT !.cond = <<XId("t")>>]),
                                         SItem("Vb", alt(<<XBin("==", XId("e"), XEv("E1", "Vb"))>>)), SItem("Vc", SField(YBool))>>, <<>>)>>, its |-> <<g>>, open |-> op]
    [] ctx = "g3" -> [ds |-> <<G(<<>>, <<SItem("Va", [SField(YBool) EXCEPT !.cond = <<XMem(XId("b"), "fa")>>]), SItem("Vb", [SField(YRef("T1", <<>>)) EXCEPT !.cond = eq(2)]), SItem("Vc", alt(<<>>))>>, <<>>), T1>>,
                      its |-> <<g>>, open |-> op]
    [] ctx = "gx" -> [ds |-> <<G(<<>>, <<SItem("Va", [u8f EXCEPT !.cond = eq(1)]), SItem("Vb", alt(<<>>))>>, Xfl("ax", FALSE))>>, its |-> <<g>>, open |-> op]
    [] ctx = "lg" -> [ds |-> <<G(<<N64(3)>>, <<SItem("Va", [C(<<>>, opened) EXCEPT !.cond = <<XId("t")>>]), SItem("Vb", alt(CondE("n"))), SItem("Vc", SField(YExt(YSc("u8", "be"))))>>, <<>>)>>,
                      its |-> <<g>>, open |-> FALSE]
    [] OTHER -> [ds |-> <<>>, its |-> <<SItem(nm, f)>>, open |-> op])

ShapeRs == <<Len(Kinds), Len(Ctxs), Len(Wraps), Len(Conds), Len(Xfs)>>
\* the digits are turned against each other so that neighbours differ in all of them
Turn(d, rs) == [i \in 1..Len(d) |-> IF i = 1 THEN d[1] ELSE (d[i] + d[1] * (i - 1)) % rs[i]]
Shape(j, u) ==
  LET rs == ShapeRs
      d == TLCEval(Turn(Dgs(j, rs), rs))
      k == Kinds[d[1] + 1]
      ctx == Ctxs[d[2] + 1]
      w0 == Wraps[d[3] + 1]
      w == TLCEval(Wrap(k, w0))
      f == [SField(w.y) EXCEPT !.cond = CondE(Conds[d[4] + 1]), !.xf = Xfl(Xfs[d[5] + 1], w.simple)]
      p == TLCEval(Place(ctx, f, w.open, u))
  IN [p EXCEPT !.ds = k.ds \o @]

\* ---------------------------------------------------------------- enums and bitfields
\* item i of the pattern is explicit or takes the next number; the explicit ones run up, down or jump about
EnumVals == <<<<1, 10, 20, 30, 40>>, <<100, 60, 40, 20, 5>>, <<0, 3, 50, 7, 90>>, <<5, 0, 11, 100, 17>>>>
RECURSIVE EnumSeq(_, _, _)
EnumSeq(pat, ex, i) ==
  IF i > 5 THEN <<>>
  ELSE <<[name |-> "V" \o Let[i], val |-> IF i = 1 \/ (pat \div Pow(i - 2)) % 2 = 1 THEN <<XInt(ex[i], "")>> ELSE <<>>, dflt |-> FALSE]>> \o EnumSeq(pat, ex, i + 1)
EnumRs == <<16, 4, 10, 2, 3, 5>>
EnumPiece(j, u) ==
  LET d == Dgs(j, EnumRs)
      s == Scs[d[3] + 1]
      its == SubSeq(EnumSeq(d[1], EnumVals[d[2] + 1], 1), 1, 5 - (IF d[5] = 2 THEN 2 ELSE 0)) \o (IF d[5] = 1 THEN <<[name |-> "Dz", val |-> <<>>, dflt |-> TRUE]>> ELSE <<>>)
      en == "X" \o u
      ty == YRef(en, <<>>)
      D == DType(en, <<>>, SField([k |-> "enum", s |-> s, e |-> IF W(s) > 1 /\ d[4] = 1 THEN "le" ELSE "be", items |-> its]))
      x == SItem("x" \o u, SField(ty))
      y(c) == SItem("y" \o u, [SField(YSc("u8", "be")) EXCEPT !.cond = c])
      isv == <<XBin("==", XId("x" \o u), XEv(en, "V" \o Let[2 + (d[6] % 2)]))>>
  IN [ds |-> <<D>>, open |-> FALSE, its |->
      CASE d[6] = 0 -> <<x, y(isv)>>
        [] d[6] = 1 -> <<SItem("x" \o u, SField(YArr(ty, XInt(2, "")))), y(<<>>)>>
        [] d[6] = 2 -> <<x, SItem("y" \o u, [SField(YSc(s, "be")) EXCEPT !.calc = <<XCast(XId("x" \o u), YSc(s, "be"))>>])>>
        [] d[6] = 3 -> <<SItem("x" \o u, [SField(ty) EXCEPT !.cond = <<XId("t")>>]), y(<<>>)>>
        [] OTHER -> <<SItem("x" \o u, SField(YTerm(ty, <<254>>))), y(<<>>)>>]
BitPos == <<<<0, 1, 3, 4, 6>>, <<2, 0, 5, 1, 4>>, <<5, 3, 1, 0, 2>>, <<1, 6, 3, 0, 5>>>>
RECURSIVE BitSeq(_, _, _)
BitSeq(pat, ex, i) ==
  IF i > 5 THEN <<>>
  ELSE LET c == (pat \div (3 * (IF i > 2 THEN (IF i > 3 THEN (IF i > 4 THEN 27 ELSE 9) ELSE 3) ELSE 1))) % 3
           p == Pow(ex[i])
       IN <<[name |-> "f" \o Let[i], val |-> IF i = 1 \/ c = 0 THEN <<XInt(p, "")>> ELSE IF c = 1 THEN <<XBin("<<", XInt(1, ""), XInt(ex[i], ""))>> ELSE <<>>, dflt |-> FALSE]>>
          \o BitSeq(pat, ex, i + 1)
BitRs == <<27, 4, 10, 2, 3, 5>>
BitPiece(j, u) ==
  LET d == Dgs(j, BitRs)
      s == Scs[d[3] + 1]
      n == CASE d[5] = 0 -> 1 [] d[5] = 1 -> 3 [] OTHER -> IF s = "i8" THEN 2 ELSE 4
      its == SubSeq(BitSeq(d[1] * 3, BitPos[d[2] + 1], 1), 1, n)
      bn == "X" \o u
      ty == YRef(bn, <<>>)
      D == DType(bn, <<>>, SField([k |-> "bits", s |-> s, e |-> IF W(s) > 1 /\ d[4] = 1 THEN "le" ELSE "be", items |-> its]))
      x == SItem("x" \o u, SField(ty))
      y(c) == SItem("y" \o u, [SField(YSc("u8", "be")) EXCEPT !.cond = c])
      fl == "f" \o Let[1 + (d[6] % n)]
  IN [ds |-> <<D>>, open |-> FALSE, its |->
      CASE d[6] = 0 -> <<x, y(<<XMem(XId("x" \o u), fl)>>)>>
        [] d[6] = 1 -> <<SItem("x" \o u, SField(YArr(ty, XInt(2, "")))), y(<<>>)>>
        [] d[6] = 2 -> <<x, SItem("y" \o u, [SField(YBool) EXCEPT !.calc = <<XMem(XId("x" \o u), fl)>>])>>
        [] d[6] = 3 -> <<SItem("x" \o u, [SField(ty) EXCEPT !.cond = <<XId("t")>>]), y(<<>>)>>
        [] OTHER -> <<x, y(<<XBin("==", XId("x" \o u), XEv(bn, fl))>>)>>]

\* ---------------------------------------------------------------- calculated fields
Calc(y, e) == [SField(y) EXCEPT !.calc = <<e>>]
CastTo(s, e) == IF s = "u64" THEN e ELSE XCast(e, YSc(s, "be"))
Wide(s, x) == IF s = "u64" THEN x ELSE XCast(x, YSc("u64", "be"))
BL(x) == XCall("blen", <<XId(x)>>)
USc == <<"u8", "u16", "u32", "u64">>
InnerC(c, nm) ==
  CASE c = 0 -> <<SItem(nm, SField(YExt(YSc("u8", "be"))))>>
    [] c = 1 -> <<SItem(nm, SField(YSc("u16", "be"))), SItem(nm \o "q", SField(YRef("utf8", <<>>)))>>
    [] c = 2 -> <<SItem(nm \o "k", Calc(YSc("u8", "be"), CastTo("u8", XCall("len", <<XId(nm)>>)))), SItem(nm, SField(YArr(YSc("u16", "be"), XId(nm \o "k"))))>>
    [] c = 3 -> <<SItem(nm, [SField(YExt(YSc("u8", "be"))) EXCEPT !.xf = Xfl("ax", FALSE)])>>
    [] c = 4 -> <<SItem(nm, [SField(YSc("u32", "be")) EXCEPT !.cond = <<XId("t")>>]), SItem(nm \o "q", SField(YExt(YBool)))>>
    [] OTHER -> <<SItem(nm, SField(YRef("v32", <<>>)))>>
CalcRs == <<12, 4, 6, 3, 2, 3>>
CalcPiece(j, u) ==
  LET d == Dgs(j, CalcRs)
      pat == d[1]
      s == USc[d[2] + 1]
      e == IF s # "u8" /\ d[5] = 1 THEN "le" ELSE "be"
      l(x) == "l" \o x \o u    c(x) == "c" \o x \o u    f(x) == "f" \o x \o u
      \* a length field, and what its container then says
      ex(x) == CASE d[6] = 0 -> CastTo(s, BL(x)) [] d[6] = 1 -> CastTo(s, XBin("+", BL(x), XInt(2, "u64"))) [] OTHER -> CastTo(s, XBin("*", BL(x), XInt(2, "u64")))
      un(x) == CASE d[6] = 0 -> Wide(s, XId(x)) [] d[6] = 1 -> XBin("-", Wide(s, XId(x)), XInt(2, "u64")) [] OTHER -> XBin("/", Wide(s, XId(x)), XInt(2, "u64"))
      LF(x) == SItem(l(x), Calc(YSc(s, e), ex(c(x))))
      CF(x, its) == SItem(c(x), SField(YCont(<<un(l(x))>>, FALSE, its)))
      CFx(x, its, xf) == SItem(c(x), [SField(YCont(<<un(l(x))>>, FALSE, its)) EXCEPT !.xf = xf])
      U(x) == SItem("u" \o x \o u, SField(YSc("u8", "be")))
      mid == CASE d[4] = 0 -> <<>> [] d[4] = 1 -> <<U("m")>> [] OTHER -> <<U("m"), SItem("w" \o u, SField(YArr(YSc("u8", "be"), XId("n"))))>>
      In(x) == InnerC(d[3], f(x))
      two == <<SItem(l("a"), Calc(YSc("u16", "be"), CastTo("u16", XBin("+", BL(c("a")), XBin("*", BL(c("b")), XInt(16, "u64")))))),
               SItem(c("a"), SField(YCont(<<XBin("%", Wide("u16", XId(l("a"))), XInt(16, "u64"))>>, FALSE, In("a"))))>> \o mid \o
             <<SItem(c("b"), SField(YCont(<<XBin("/", Wide("u16", XId(l("a"))), XInt(16, "u64"))>>, FALSE, In("b"))))>>
  IN [ds |-> <<>>, open |-> FALSE, its |->
      CASE pat = 0 -> <<LF("a")>> \o mid \o <<CF("a", In("a")), U("z")>>
        [] pat = 1 -> <<LF("a"), LF("b")>> \o mid \o <<CF("a", In("a")), CF("b", In("b")), U("z")>>
        [] pat = 2 -> <<LF("a"), LF("b"), CF("b", In("b"))>> \o mid \o <<CF("a", In("a")), U("z")>>
        [] pat = 3 -> <<LF("a")>> \o mid \o <<CF("a", <<U("i"), LF("b")>> \o <<CF("b", In("b"))>>), U("z")>>
        [] pat = 4 -> two \o <<U("z")>>
        [] pat = 5 -> <<LF("a"), LF("b"), LF("d")>> \o mid \o <<CF("b", In("b")), CF("d", In("d")), CF("a", In("a")), U("z")>>
        [] pat = 6 -> <<SItem("o" \o u, SField(YCont(<<>>, FALSE, <<LF("a")>> \o mid \o <<CF("a", In("a"))>>))), U("z")>>
        [] pat = 7 -> <<LF("a"), CF("a", <<U("i"), SItem("o" \o u, SField(YCont(<<>>, FALSE, In("a"))))>>), U("z")>>
        [] pat = 8 -> <<LF("a"), CF("a", <<LF("b"), LF("d")>> \o mid \o <<CF("b", In("b")), CF("d", In("d"))>>), U("z")>>
        [] pat = 9 -> <<LF("a")>> \o mid \o <<CFx("a", In("a"), Xfl("x", FALSE)), U("z")>>
        [] pat = 10 -> <<SItem(l("a"), Calc(YSc(s, e), CastTo(s, XCall("len", <<XId(f("a"))>>))))>> \o mid \o
                       <<SItem(f("a"), SField(CASE d[3] = 0 -> YArr(YSc("u8", "be"), XId(l("a"))) [] d[3] = 1 -> YRef("utf8", <<XId(l("a"))>>) [] d[3] = 2 -> YRef("blob", <<XId(l("a"))>>)
                                              [] d[3] = 3 -> YArr(YSc("i32", "le"), XId(l("a"))) [] d[3] = 4 -> YArr(YBool, XId(l("a"))) [] OTHER -> YArr(YRef("v16", <<>>), XId(l("a"))))), U("z")>>
        [] OTHER -> <<SItem(l("a"), Calc(YSc("u32", "be"), XCast(XCall("sum", <<XId(f("a"))>>), YSc("u32", "be"))))>> \o mid \o
                    <<SItem(f("a"), SField(YArr(YSc(Scs[1 + ((d[3] * 3 + d[6]) % 10)], "be"), XId("n")))), SItem(l("b"), Calc(YSc("u16", "le"), XBin("+", XCast(XId("n"), YSc("u16", "be")), XInt(7, ""))))>>]

\* ---------------------------------------------------------------- parameters
PSc == <<"u8", "u16", "u64", "i32", "bool", "enum">>
PTy(p) == CASE p = "bool" -> YBool [] p = "enum" -> YRef("E1", <<>>) [] OTHER -> YSc(p, "be")
PDef(p, k) == CASE p = "bool" -> XBool(k = 1) [] p = "enum" -> XEv("E1", IF k = 1 THEN "Vb" ELSE "Vc") [] OTHER -> XInt(2 + k, "")
PVal(p, k) == CASE p = "bool" -> (IF k = 0 THEN XId("t") ELSE XUn("!", XId("t")))
                [] p = "enum" -> (IF k = 0 THEN XId("e") ELSE XEv("E1", "Va"))
                [] OTHER -> IF p = "i32" THEN (IF k = 0 THEN XCast(XId("n"), YSc("i32", "be")) ELSE XInt(3, "")) ELSE IF k = 0 THEN XId("n") ELSE XInt(3, p)
PUse(p, nm) == CASE p = "bool" -> XId(nm) [] p = "enum" -> XBin("==", XId(nm), XEv("E1", "Vb")) [] OTHER -> XBin(">", XId(nm), XInt(2, ""))
\* how a parameter shows: as a condition, as a count, as a transform's argument, as a calculated value
ArgRs == <<6, 6, 3, 2, 4, 3, 3>>
ArgPiece(j, u) ==
  LET d == Dgs(j, ArgRs)
      a == PSc[d[1] + 1]  b == PSc[d[2] + 1]
      nopt == d[3]                                   \* optional parameters at the end: 0, 1, 2
      c == PSc[((d[1] + d[2]) % 6) + 1]
      ps == <<SArg("p", PTy(a), <<>>),
              SArg("q", PTy(b), IF nopt >= 2 THEN <<PDef(b, d[4])>> ELSE <<>>),
              SArg("r", PTy(c), IF nopt >= 1 THEN <<PDef(c, 1 - d[4])>> ELSE <<>>)>>
      given == CASE d[6] = 0 -> 3 [] d[6] = 1 -> 3 - (IF nopt > 0 THEN 1 ELSE 0) [] OTHER -> 3 - nopt
      as == SubSeq(<<PVal(a, d[7] % 2), PVal(b, (d[7] + 1) % 2), PVal(c, IF d[7] = 2 THEN 1 ELSE 0)>>, 1, given)
      un == "P" \o u
      u8 == YSc("u8", "be")
      cf(nm, x) == SItem(nm, [SField(u8) EXCEPT !.cond = <<x>>])
      num(x, nm) == CASE x = "bool" -> XTern(XId(nm), XInt(1, "u64"), XInt(2, "u64")) [] x = "enum" -> XBin("%", XCast(XCast(XId(nm), YSc("u8", "be")), YSc("u64", "be")), XInt(4, "u64"))
                      [] OTHER -> XBin("%", XCast(XId(nm), YSc("u64", "be")), XInt(4, "u64"))
      body == CASE d[5] = 0 -> <<cf("f1", PUse(a, "p")), cf("f2", PUse(b, "q")), cf("f3", PUse(c, "r"))>>
                [] d[5] = 1 -> <<SItem("f1", SField(YArr(u8, num(a, "p")))), SItem("f2", SField(YArr(YSc("u16", "be"), num(b, "q")))), SItem("f3", SField(YRef("blob", <<num(c, "r")>>)))>>
                [] d[5] = 2 -> <<SItem("f1", [SField(YSc("u32", "be")) EXCEPT !.xf = <<Xf1("xadd", <<XCast(num(a, "p"), u8)>>, <<>>)>>]),
                                 SItem("f2", Calc(YSc("u64", "be"), XBin("+", num(b, "q"), num(c, "r"))))>>
                [] OTHER -> <<SItem("f1", SField(YRef("Q" \o u, <<XId("q"), XId("p")>>))), cf("f3", PUse(c, "r"))>>
      Q == DType("Q" \o u, <<SArg("p", PTy(b), <<>>), SArg("q", PTy(a), <<>>), SArg("r", PTy(c), <<PDef(c, d[4])>>)>>,
                 SField(YCont(<<>>, FALSE, <<cf("f1", PUse(b, "p")), cf("f2", PUse(a, "q")), cf("f3", PUse(c, "r"))>>)))
      D == DType(un, ps, SField(YCont(<<>>, FALSE, Append(body, SItem("f9", SField(YBool))))))
  IN [ds |-> (IF d[5] = 3 THEN <<Q>> ELSE <<>>) \o <<D>>, open |-> FALSE,
      its |-> <<SItem("x" \o u, SField(YRef(un, as))), SItem("y" \o u, SField(u8))>>]

\* ---------------------------------------------------------------- expressions
\* one operator (or two) over fields of one width, in one position
Arith == <<"+", "-", "*", "&", "|", "^", "<<", ">>", ">>>", "/", "%", "<", ">", "<=", ">=", "==", "!=">>
ExprRs == <<17, 10, 17, 3, 6>>
ExprPiece(j, u) ==
  LET d == Dgs(j, ExprRs)
      o1 == Arith[d[1] + 1]  s == Scs[d[2] + 1]  o2 == Arith[d[3] + 1]
      a == "a" \o u  c == "c" \o u
      sh(o, x) == IF o \in {"<<", ">>", ">>>"} THEN XInt(3, s) ELSE IF o \in {"/", "%"} THEN XInt(3, "") ELSE x
      isB(o) == o \in {"<", ">", "<=", ">=", "==", "!="}
      A(o, l, r) == XBin(o, l, sh(o, r))
      e1 == A(o1, XId(a), XId(c))
      full == CASE isB(o1) /\ isB(o2) -> XBin(IF d[4] = 0 THEN "&&" ELSE "||", e1, A(o2, XId(c), XInt(3, "")))
                [] isB(o1) -> A(o1, A(o2, XId(a), XId(c)), XId(c))
                [] isB(o2) /\ d[4] = 0 -> A(o2, e1, XId(c))
                [] isB(o2) -> A(o2, XId(c), e1)
                [] d[4] = 0 -> A(o2, e1, XId(c))
                [] d[4] = 1 /\ o2 \notin {"<<", ">>", ">>>", "/", "%"} -> XBin(o2, XId(c), e1)
                [] OTHER -> A(o2, XUn(IF Sg(s) THEN "-" ELSE "~", XId(a)), XId(c))
      bl == isB(o1) \/ isB(o2)
      num(e) == IF bl THEN XTern(e, XInt(1, "u64"), XInt(2, "u64")) ELSE XBin("&", XCast(e, YSc("u64", "be")), XInt(3, "u64"))
      bol(e) == IF bl THEN e ELSE XBin(">", e, XInt(2, ""))
      u8 == YSc("u8", "be")
      hd == <<SItem(a, SField(YSc(s, "be"))), SItem(c, SField(YSc(s, "be")))>>
      z == SItem("z" \o u, SField(u8))
  IN [ds |-> <<>>, open |-> FALSE, its |-> hd \o
      (CASE d[5] \in {0, 1} -> <<SItem("r" \o u, Calc(IF bl THEN YBool ELSE YSc(s, IF W(s) > 1 /\ d[5] = 1 THEN "le" ELSE "be"), full))>>
         [] d[5] = 2 -> <<SItem("r" \o u, [SField(u8) EXCEPT !.cond = <<bol(full)>>])>>
         [] d[5] = 3 -> <<SItem("r" \o u, SField(YArr(u8, num(full))))>>
         [] d[5] = 4 -> <<SItem("r" \o u, SField(YRef("blob", <<num(full)>>)))>>
         [] OTHER -> <<SItem("r" \o u, [SField(YSc("u16", "be")) EXCEPT !.xf = <<Xf1("xxor", <<XCast(num(full), u8)>>, <<>>)>>])>>) \o <<z>>]

\* ---------------------------------------------------------------- types that contain themselves
\* what goes around, how it is repeated, what else the types hold and whether their fields share names
RecRs == <<7, 5, 5, 2>>
RecPiece(j, u) ==
  LET d == TLCEval(Turn(Dgs(j, RecRs), RecRs))
      u8 == YSc("u8", "be")
      A == "A" \o u  B == "B" \o u  C == "C" \o u  O == "O" \o u
      odd(e) == XBin("&", e, XInt(1, ""))
      few == <<XBin("==", XBin("&", XId("k"), XInt(3, "")), XInt(2, ""))>>
      rep(y) == CASE d[2] = 0 -> SField(YArr(y, odd(XId("k"))))
                  [] d[2] = 1 -> [SField(YArr(y, XInt(1, ""))) EXCEPT !.cond = few]
                  [] d[2] = 2 -> [SField(YTerm(y, <<0, 255>>)) EXCEPT !.cond = few]
                  [] d[2] = 3 -> SField(YArr(YArr(y, odd(XId("k"))), XInt(1, "")))
                  [] OTHER -> [SField(YArr(y, XTern(XId("q"), XInt(1, ""), XInt(0, "")))) EXCEPT !.cond = few]
      nm(x) == IF d[4] = 0 THEN x ELSE x \o u
      o == DType(O, <<>>, SField(YCont(<<>>, FALSE, <<SItem("n", SField(u8)), SItem(nm("r"), SField(YBool))>>)))
      more == CASE d[3] = 0 -> <<>>
                [] d[3] = 1 -> <<SItem("x", SField(YRef(O, <<>>)))>>
                [] d[3] = 2 -> <<SItem("x", SField(YArr(YRef(O, <<>>), XInt(1, ""))))>>
                [] d[3] = 3 -> <<SItem("x", [SField(YRef("v16", <<>>)) EXCEPT !.xf = <<Xf1("xxor", <<XId("k")>>, <<>>)>>])>>
                [] OTHER -> <<SItem("w", SField(YCont(<<>>, FALSE, <<SItem("x", SField(YRef(O, <<>>))), SItem("y", SField(YRef("utf8", <<XInt(2, "")>>)))>>)))>>
      hd == <<SItem("k", SField(u8)), SItem("q", SField(YBool))>>
      S(n, its) == DType(n, <<>>, SField(YCont(<<>>, FALSE, its)))
      arg == <<SArg("n", u8, <<>>)>>
      ref(n) == SItem("s" \o u, SField(YRef(n, <<>>)))
      plain(n, x, y) == S(n, hd \o more \o <<SItem(x, rep(YRef(y, <<>>)))>>)
  IN CASE d[1] = 0 -> [ds |-> <<o, plain(A, nm("n"), A)>>, its |-> <<ref(A)>>, open |-> FALSE]
       [] d[1] = 1 -> [ds |-> <<plain(A, "n", B), o, plain(B, nm("n"), A)>>, its |-> <<ref(B)>>, open |-> FALSE]
       [] d[1] = 2 -> [ds |-> <<plain(A, nm("r"), B), plain(B, "r", C), o, plain(C, "n", A)>>, its |-> <<ref(A), SItem("t" \o u, SField(YRef(C, <<>>)))>>, open |-> FALSE]
       [] d[1] = 3 -> \* by way of the alternatives of a tagged container
            [ds |-> <<o, DType(A, arg, SField(YCont(<<>>, TRUE, <<SItem("Va", [SField(YRef(B, <<>>)) EXCEPT !.cond = <<XBin("<", XId("n"), XInt(2, ""))>>]), SItem("Vb", SField(YCont(<<>>, FALSE, hd \o more)))>>))),
                      S(B, hd \o more \o <<SItem(nm("n"), rep(YRef(A, <<XId("k")>>)))>>)>>,
             its |-> <<ref(B)>>, open |-> FALSE]
       [] d[1] = 4 -> \* counting down an argument
            [ds |-> <<o, DType(A, arg, SField(YCont(<<>>, FALSE, hd \o more \o <<SItem(nm("r"), [SField(YArr(YRef(A, <<XBin("-", XId("n"), XInt(1, ""))>>), XInt(2, ""))) EXCEPT !.cond = <<XBin("&&", XBin(">", XId("n"), XInt(0, "")), XBin("<", XId("n"), XInt(4, "")))>>])>>)))>>,
             its |-> <<SItem("s" \o u, SField(YRef(A, <<XBin("&", XId("n"), XInt(3, ""))>>)))>>, open |-> FALSE]
       [] d[1] = 5 -> \* inside inline containers
            [ds |-> <<o, S(A, hd \o <<SItem("c", SField(YCont(<<>>, FALSE, more \o <<SItem("d", SField(YCont(<<>>, FALSE, <<SItem(nm("n"), rep(YRef(A, <<>>)))>>)))>>)))>>)>>,
             its |-> <<ref(A)>>, open |-> FALSE]
       [] OTHER -> \* by way of an alias
            [ds |-> <<DType(A, <<SArg("k", u8, <<>>), SArg("q", YBool, <<>>)>>, [rep(YRef(B, <<>>)) EXCEPT !.cond = <<>>, !.ty = YArr(YRef(B, <<>>), odd(XId("k")))]), o,
                      S(B, hd \o more \o <<SItem(nm("n"), SField(YRef(A, <<XId("k"), XId("q")>>)))>>)>>,
             its |-> <<ref(B)>>, open |-> FALSE]

\* ---------------------------------------------------------------- putting together
PieceN == CASE Focus = "enum" -> Prod(EnumRs) + Prod(BitRs)
            [] Focus = "calc" -> Prod(CalcRs)
            [] Focus = "args" -> Prod(ArgRs) + Prod(ShapeRs)
            [] Focus = "expr" -> Prod(ExprRs)
            [] Focus = "rec" -> Prod(RecRs)
            [] OTHER -> Prod(ShapeRs)
FPiece(j, u) ==
  CASE Focus = "enum" -> IF j < Prod(EnumRs) THEN EnumPiece(j, u) ELSE BitPiece(j - Prod(EnumRs), u)
    [] Focus = "calc" -> CalcPiece(j, u)
    [] Focus = "args" -> IF j < Prod(ArgRs) THEN ArgPiece(j, u) ELSE Shape(j - Prod(ArgRs), u)
    [] Focus = "expr" -> ExprPiece(j, u)
    [] Focus = "rec" -> RecPiece(j, u)
    [] OTHER -> Shape(j, u)
PerP == CASE Focus = "calc" -> 2 [] OTHER -> 3
RECURSIVE NoDupD(_, _)
NoDupD(ds, seen) == IF ds = <<>> THEN <<>> ELSE IF Head(ds).name \in seen THEN NoDupD(Tail(ds), seen) ELSE <<Head(ds)>> \o NoDupD(Tail(ds), seen \cup {Head(ds).name})
\* the open pieces go last (a second open one is left out)
RECURSIVE Join(_, _, _)
Join(ps, its, op) == IF ps = <<>> THEN its \o op
  ELSE LET p == Head(ps) IN Join(Tail(ps), IF p.open THEN its ELSE its \o p.its, IF p.open THEN (IF op = <<>> THEN p.its ELSE op) ELSE op)
Stride == 10007
At(i) == (i * Stride + 77) % PieceN
FamProg(i) ==
  LET ps == TLCEval([k \in 1..PerP |-> FPiece(At(i * PerP + k - 1), Let[k])])
      RECURSIVE Ds(_)
      Ds(k) == IF k > PerP THEN <<>> ELSE ps[k].ds \o Ds(k + 1)
  IN Ffis \o <<E1, B1>> \o NoDupD(Ds(1), {}) \o <<DType("R1", <<>>, SField(YCont(<<>>, FALSE, Hdr \o Join(ps, <<>>, <<>>))))>>
FamN == (PieceN + PerP - 1) \div PerP
=============================================================================
