------------------------------- MODULE Syntax -------------------------------
(* The concrete syntax of protospec: text (a sequence of bytes) to tokens to   *)
(* declarations, as SPEC.md's grammar has it, written as a reference lexer and *)
(* a reference recursive-descent parser.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---------------------------------------------------------------- characters
Chars == <<" ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9",
           ":", ";", "<", "=", ">", "?", "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z",
           "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
           "{", "|", "}", "~">>
CodeOf == [x \in {Chars[i] : i \in 1..95} |-> (CHOOSE i \in 1..95 : Chars[i] = x) + 31]
BytesOf(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
RECURSIVE StrOf(_)
StrOf(b) == IF b = <<>> THEN "" ELSE Chars[Head(b) - 31] \o StrOf(Tail(b))
SpaceC == {9, 10, 12, 13, 32}
DigC == 48..57
HexC == DigC \cup 65..70 \cup 97..102
AlC == 65..90 \cup 97..122 \cup {95}
HexV(c) == CASE c <= 57 -> c - 48 [] c <= 70 -> c - 55 [] OTHER -> c - 87

\* ---------------------------------------------------------------- tokens
Scalars == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
LeOf == [s \in {"u16le", "u32le", "u64le", "u128le", "i16le", "i32le", "i64le", "i128le"} |-> SubSeq(s, 1, Len(s) - 2)]
Words == Scalars \cup DOMAIN LeOf \cup {"type", "as", "import", "import_ffi", "transform", "function", "const", "container", "f32", "f64", "enum",
          "default", "bitfield", "bool", "from", "true", "false"}
\* longest first
Marks == <<">>>", "==", "?:", "||", "&&", "..", ":>", "::", "<=", "<<", ">=", ">>", "->", "!=",
           "=", ",", ";", "?", "[", "]", "{", "}", "(", ")", "+", "*", "%", "^", "~", "|", "/", "&", ".", ":", "<", ">", "-", "!">>
MarkB == [i \in 1..Len(Marks) |-> BytesOf(Marks[i])]
Tok(t, s, from, to) == [t |-> t, s |-> s, from |-> from, to |-> to]
RECURSIVE RunEnd(_, _, _)
RunEnd(s, i, C) == IF i <= Len(s) /\ s[i] \in C THEN RunEnd(s, i + 1, C) ELSE i
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ \A k \in 1..Len(w) : s[i + k - 1] = w[k]
RECURSIVE FindAt(_, _, _)      \* first place >= i where w starts, or 0
FindAt(s, i, w) == IF i + Len(w) - 1 > Len(s) THEN 0 ELSE IF StartsAt(s, i, w) THEN i ELSE FindAt(s, i + 1, w)
\* the body of a string from i: [ok, b, i]
RECURSIVE StrBody(_, _, _)
StrBody(s, i, acc) ==
  CASE i > Len(s) -> [ok |-> FALSE]
    [] s[i] = 34 -> [ok |-> TRUE, b |-> acc, i |-> i + 1]
    [] s[i] = 92 /\ i = Len(s) -> [ok |-> FALSE]
    [] s[i] = 92 /\ s[i + 1] \in HexC /\ i + 2 <= Len(s) /\ s[i + 2] \in HexC -> StrBody(s, i + 3, Append(acc, 16 * HexV(s[i + 1]) + HexV(s[i + 2])))
    [] s[i] = 92 /\ s[i + 1] \in HexC -> StrBody(s, i + 2, Append(acc, HexV(s[i + 1])))
    [] s[i] = 92 -> StrBody(s, i + 2, Append(acc, s[i + 1]))
    [] OTHER -> StrBody(s, i + 1, Append(acc, s[i]))
LexErr == [ok |-> FALSE]
RECURSIVE LexR(_, _, _)
LexR(s, i, acc) ==
  IF i > Len(s) THEN [ok |-> TRUE, ts |-> acc]
  ELSE LET c == s[i] IN
  CASE c \in SpaceC -> LexR(s, i + 1, acc)
    [] StartsAt(s, i, <<47, 47>>) -> LET e == FindAt(s, i, <<10>>) IN IF e = 0 THEN [ok |-> TRUE, ts |-> acc] ELSE LexR(s, e + 1, acc)
    [] StartsAt(s, i, <<47, 42>>) -> LET e == FindAt(s, i + 2, <<42, 47>>) IN IF e = 0 THEN [ok |-> TRUE, ts |-> acc] ELSE LexR(s, e + 2, acc)
    [] c = 34 -> LET r == StrBody(s, i + 1, <<>>) IN
                 IF ~r.ok THEN LexErr ELSE LexR(s, r.i, Append(acc, [t |-> "str", b |-> r.b, from |-> i, to |-> r.i]))
    [] c \in DigC ->
         LET e == IF c = 48 /\ i < Len(s) /\ s[i + 1] = 120 THEN RunEnd(s, i + 2, HexC) ELSE RunEnd(s, i, DigC)
         IN LexR(s, e, Append(acc, Tok("int", StrOf(SubSeq(s, i, e - 1)), i, e)))
    [] c \in AlC ->
         LET e == RunEnd(s, i, AlC \cup DigC)
             w == StrOf(SubSeq(s, i, e - 1))
         IN LexR(s, e, Append(acc, Tok(IF w \in Words THEN "p" ELSE "id", w, i, e)))
    [] OTHER ->
         LET ms == {k \in 1..Len(Marks) : StartsAt(s, i, MarkB[k])} IN
         IF ms = {} THEN LexErr
         ELSE LET k == CHOOSE k \in ms : \A j \in ms : k <= j IN
              LexR(s, i + Len(MarkB[k]), Append(acc, Tok("p", Marks[k], i, i + Len(MarkB[k]))))
Lex(s) == LexR(s, 1, <<>>)

\* where a byte stands: line and column, both counted from 1
LineOf(s, i) == 1 + Cardinality({k \in 1..(i - 1) : s[k] = 10})
ColOf(s, i) == LET B == {k \in 1..(i - 1) : s[k] = 10} IN i - (IF B = {} THEN 0 ELSE CHOOSE k \in B : \A j \in B : j <= k)

\* ---------------------------------------------------------------- grammar
Good(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
Bad(i) == [ok |-> FALSE, i |-> i]
T(ts, i) == IF i > Len(ts) THEN [t |-> "eof", s |-> ""] ELSE ts[i]
IsP(ts, i, w) == LET x == T(ts, i) IN x.t = "p" /\ x.s = w
IsId(ts, i) == T(ts, i).t = "id"
IsScalar(ts, i) == LET x == T(ts, i) IN x.t = "p" /\ x.s \in Scalars \cup DOMAIN LeOf
ScalarOf(w) == IF w \in Scalars THEN [s |-> w, e |-> "be"] ELSE [s |-> LeOf[w], e |-> "le"]

Levels == <<{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", "<=", ">", ">="}, {"<<", ">>", ">>>"}, {"+", "-"}, {"*", "/", "%"}>>
RECURSIVE PExpr(_, _)
RECURSIVE PLevel(_, _, _)
RECURSIVE PLoop(_, _, _)
RECURSIVE PCastLoop(_, _)
RECURSIVE PUnary(_, _)
RECURSIVE PPost(_, _)
RECURSIVE PPrim(_, _)
RECURSIVE PList(_, _, _)
RECURSIVE PType(_, _)
RECURSIVE PArr(_, _)
RECURSIVE PFlags(_, _, _)
RECURSIVE PItems(_, _, _)
RECURSIVE PVars(_, _, _, _)
RECURSIVE PField(_, _)
RECURSIVE PXfs(_, _, _)

PExpr(ts, i) ==
  LET a == PLevel(ts, i, 1) IN
  IF ~a.ok \/ ~IsP(ts, a.i, "?") THEN a
  ELSE LET b == PExpr(ts, a.i + 1) IN
       IF ~b.ok THEN b ELSE IF ~IsP(ts, b.i, ":") THEN Bad(b.i)
       ELSE LET c == PLevel(ts, b.i + 1, 1) IN
            IF ~c.ok THEN c ELSE Good([k |-> "tern", c |-> a.v, t |-> b.v, f |-> c.v], c.i)
PLoop(ts, a, l) ==
  LET x == T(ts, a.i) IN
  IF ~(x.t = "p" /\ x.s \in Levels[l]) THEN a
  ELSE LET b == PLevel(ts, a.i + 1, l + 1) IN
       IF ~b.ok THEN b ELSE PLoop(ts, Good([k |-> "bin", op |-> x.s, l |-> a.v, r |-> b.v], b.i), l)
PLevel(ts, i, l) ==
  IF l > 10 THEN LET u == PUnary(ts, i) IN IF u.ok THEN PCastLoop(ts, u) ELSE u
  ELSE LET a == PLevel(ts, i, l + 1) IN IF ~a.ok THEN a ELSE PLoop(ts, a, l)
PCastLoop(ts, a) ==
  CASE IsP(ts, a.i, ":>") -> LET t == PType(ts, a.i + 1) IN IF ~t.ok THEN t ELSE PCastLoop(ts, Good([k |-> "cast", x |-> a.v, ty |-> t.v], t.i))
    [] IsP(ts, a.i, "?:") -> LET u == PUnary(ts, a.i + 1) IN IF ~u.ok THEN u ELSE PCastLoop(ts, Good([k |-> "bin", op |-> "?:", l |-> a.v, r |-> u.v], u.i))
    [] OTHER -> a
PUnary(ts, i) ==
  LET x == T(ts, i) IN
  IF x.t = "p" /\ x.s \in {"!", "-", "~"}
  THEN LET u == PUnary(ts, i + 1) IN IF ~u.ok THEN u ELSE Good([k |-> "un", op |-> x.s, x |-> u.v], u.i)
  ELSE LET p == PPrim(ts, i) IN IF ~p.ok THEN p ELSE PPost(ts, p)
PPost(ts, a) ==
  CASE IsP(ts, a.i, "[") -> LET e == PExpr(ts, a.i + 1) IN
         IF ~e.ok THEN e ELSE IF ~IsP(ts, e.i, "]") THEN Bad(e.i) ELSE PPost(ts, Good([k |-> "idx", x |-> a.v, i |-> e.v], e.i + 1))
    [] IsP(ts, a.i, ".") -> IF ~IsId(ts, a.i + 1) THEN Bad(a.i + 1) ELSE PPost(ts, Good([k |-> "mem", x |-> a.v, m |-> ts[a.i + 1].s], a.i + 2))
    [] OTHER -> a
\* expressions between parentheses, a comma allowed after the last
PList(ts, i, acc) ==
  IF IsP(ts, i, ")") THEN Good(acc, i + 1)
  ELSE LET e == PExpr(ts, i) IN
       CASE ~e.ok -> e
         [] IsP(ts, e.i, ",") -> PList(ts, e.i + 1, Append(acc, e.v))
         [] IsP(ts, e.i, ")") -> Good(Append(acc, e.v), e.i + 1)
         [] OTHER -> Bad(e.i)
PPrim(ts, i) ==
  LET x == T(ts, i) IN
  CASE x.t = "int" -> IF IsScalar(ts, i + 1) THEN Good([k |-> "int", txt |-> x.s, suf |-> <<ScalarOf(ts[i + 1].s).s>>], i + 2)
                      ELSE Good([k |-> "int", txt |-> x.s, suf |-> <<>>], i + 1)
    [] x.t = "str" -> Good([k |-> "str", b |-> x.b], i + 1)
    [] x.t = "id" ->
         (CASE IsP(ts, i + 1, "::") -> IF IsId(ts, i + 2) THEN Good([k |-> "ev", e |-> x.s, v |-> ts[i + 2].s], i + 3) ELSE Bad(i + 2)
            [] IsP(ts, i + 1, "(") -> LET a == PList(ts, i + 2, <<>>) IN IF ~a.ok THEN a ELSE Good([k |-> "call", f |-> x.s, a |-> a.v], a.i)
            [] OTHER -> Good([k |-> "id", n |-> x.s], i + 1))
    [] x.t = "p" /\ x.s \in {"true", "false"} -> Good([k |-> "bool", v |-> x.s = "true"], i + 1)
    [] x.t = "p" /\ x.s = "(" -> LET e == PExpr(ts, i + 1) IN IF ~e.ok THEN e ELSE IF IsP(ts, e.i, ")") THEN Good(e.v, e.i + 1) ELSE Bad(e.i)
    [] OTHER -> Bad(i)

PFlags(ts, i, acc) == IF ~IsP(ts, i, "+") THEN Good(acc, i) ELSE IF IsId(ts, i + 1) THEN PFlags(ts, i + 2, Append(acc, ts[i + 1].s)) ELSE Bad(i + 1)
\* the items of an enum (df: a default is allowed) or bitfield: the first has a value
PVars(ts, i, acc, df) ==
  IF ~IsId(ts, i) THEN Bad(i)
  ELSE LET nm == ts[i].s
           it(v, d) == Append(acc, [name |-> nm, val |-> v, dflt |-> d])
           next(r) == CASE ~r.ok -> r
                        [] IsP(ts, r.i, ",") /\ IsP(ts, r.i + 1, "}") -> Good(r.v, r.i + 2)
                        [] IsP(ts, r.i, ",") -> PVars(ts, r.i + 1, r.v, df)
                        [] IsP(ts, r.i, "}") -> Good(r.v, r.i + 1)
                        [] OTHER -> Bad(r.i)
       IN IF ~IsP(ts, i + 1, "=") THEN (IF acc = <<>> THEN Bad(i + 1) ELSE next(Good(it(<<>>, FALSE), i + 1)))
          ELSE IF df /\ IsP(ts, i + 2, "default") THEN next(Good(it(<<>>, TRUE), i + 3))
          ELSE LET e == PExpr(ts, i + 2) IN IF ~e.ok THEN e ELSE next(Good(it(<<e.v>>, FALSE), e.i))
PItems(ts, i, acc) ==
  IF IsP(ts, i, "}") THEN Good(acc, i + 1)
  ELSE LET r == IF IsP(ts, i, ".")
                THEN (IF ~(IsId(ts, i + 1) /\ ts[i + 1].s = "pad") THEN Bad(i + 1) ELSE IF ~IsP(ts, i + 2, ":") THEN Bad(i + 2)
                      ELSE LET e == PExpr(ts, i + 3) IN IF ~e.ok THEN e ELSE Good([k |-> "pad", len |-> e.v], e.i))
                ELSE (IF ~IsId(ts, i) THEN Bad(i) ELSE IF ~IsP(ts, i + 1, ":") THEN Bad(i + 1)
                      ELSE LET f == PField(ts, i + 2) IN IF ~f.ok THEN f ELSE Good([k |-> "f", name |-> ts[i].s, f |-> f.v], f.i))
       IN CASE ~r.ok -> r
            [] IsP(ts, r.i, ",") -> PItems(ts, r.i + 1, Append(acc, r.v))
            [] IsP(ts, r.i, "}") -> Good(Append(acc, r.v), r.i + 1)
            [] OTHER -> Bad(r.i)
\* any number of [length] after a type
PArr(ts, a) ==
  IF ~a.ok \/ ~IsP(ts, a.i, "[") THEN a
  ELSE LET ex == IsP(ts, a.i + 1, "..")
           j == IF ex THEN a.i + 2 ELSE a.i + 1
       IN IF IsP(ts, j, "]") THEN (IF ex THEN PArr(ts, Good([k |-> "arr", el |-> a.v, exp |-> TRUE, len |-> <<>>], j + 1)) ELSE Bad(j))
          ELSE LET e == PExpr(ts, j) IN
               IF ~e.ok THEN e ELSE IF ~IsP(ts, e.i, "]") THEN Bad(e.i)
               ELSE PArr(ts, Good([k |-> "arr", el |-> a.v, exp |-> ex, len |-> <<e.v>>], e.i + 1))
PCont(ts, i) ==
  LET l == IF ~IsP(ts, i, "[") THEN Good(<<>>, i)
           ELSE LET e == PExpr(ts, i + 1) IN IF ~e.ok THEN e ELSE IF IsP(ts, e.i, "]") THEN Good(<<e.v>>, e.i + 1) ELSE Bad(e.i)
  IN IF ~l.ok THEN l
     ELSE LET f == PFlags(ts, l.i, <<>>) IN
          IF ~f.ok THEN f ELSE IF ~IsP(ts, f.i, "{") THEN Bad(f.i)
          ELSE LET b == PItems(ts, f.i + 1, <<>>) IN
               IF ~b.ok THEN b ELSE Good([k |-> "cont", len |-> l.v, flags |-> f.v, items |-> b.v], b.i)
PVariants(ts, i, kd, df) ==
  IF ~IsScalar(ts, i) THEN Bad(i) ELSE IF ~IsP(ts, i + 1, "{") THEN Bad(i + 1)
  ELSE LET s == ScalarOf(ts[i].s)  v == PVars(ts, i + 2, <<>>, df) IN
       IF ~v.ok THEN v ELSE Good([k |-> kd, s |-> s.s, e |-> s.e, items |-> v.v], v.i)
PType(ts, i) ==
  LET x == T(ts, i) IN
  PArr(ts,
    CASE IsScalar(ts, i) -> LET s == ScalarOf(x.s) IN Good([k |-> "sc", s |-> s.s, e |-> s.e], i + 1)
      [] IsP(ts, i, "container") -> PCont(ts, i + 1)
      [] IsP(ts, i, "enum") -> PVariants(ts, i + 1, "enum", TRUE)
      [] IsP(ts, i, "bitfield") -> PVariants(ts, i + 1, "bits", FALSE)
      [] IsP(ts, i, "f32") -> Good([k |-> "f", w |-> 4], i + 1)
      [] IsP(ts, i, "f64") -> Good([k |-> "f", w |-> 8], i + 1)
      [] IsP(ts, i, "bool") -> Good([k |-> "bool"], i + 1)
      [] x.t = "id" -> IF IsP(ts, i + 1, "(") THEN (LET a == PList(ts, i + 2, <<>>) IN IF ~a.ok THEN a ELSE Good([k |-> "ref", name |-> x.s, args |-> a.v], a.i))
                       ELSE Good([k |-> "ref", name |-> x.s, args |-> <<>>], i + 1)
      [] OTHER -> Bad(i))
POpt(ts, i, open, close) ==      \* <<>> or <<expression>> between marks ("" closes by itself)
  IF ~IsP(ts, i, open) THEN Good(<<>>, i)
  ELSE LET e == PExpr(ts, i + 1) IN
       IF ~e.ok THEN e ELSE IF close = "" THEN Good(<<e.v>>, e.i) ELSE IF IsP(ts, e.i, close) THEN Good(<<e.v>>, e.i + 1) ELSE Bad(e.i)
PXfs(ts, i, acc) ==
  IF ~IsP(ts, i, "->") THEN Good(acc, i)
  ELSE IF ~IsId(ts, i + 1) THEN Bad(i + 1)
  ELSE LET a == IF IsP(ts, i + 2, "(") THEN PList(ts, i + 3, <<>>) ELSE Good(<<>>, i + 2) IN
       IF ~a.ok THEN a
       ELSE LET c == POpt(ts, a.i, "{", "}") IN
            IF ~c.ok THEN c ELSE PXfs(ts, c.i, Append(acc, [name |-> ts[i + 1].s, args |-> a.v, cond |-> c.v]))
PField(ts, i) ==
  LET t == PType(ts, i) IN IF ~t.ok THEN t ELSE
  LET c == POpt(ts, t.i, "=", "") IN IF ~c.ok THEN c ELSE
  LET f == PFlags(ts, c.i, <<>>) IN IF ~f.ok THEN f ELSE
  LET d == POpt(ts, f.i, "{", "}") IN IF ~d.ok THEN d ELSE
  LET x == PXfs(ts, d.i, <<>>) IN IF ~x.ok THEN x ELSE
  Good([ty |-> t.v, calc |-> c.v, flags |-> f.v, cond |-> d.v, xf |-> x.v], x.i)

RECURSIVE PParams(_, _, _)
PParams(ts, i, acc) ==
  IF IsP(ts, i, ")") THEN Good(acc, i + 1)
  ELSE IF ~IsId(ts, i) THEN Bad(i) ELSE IF ~IsP(ts, i + 1, ":") THEN Bad(i + 1)
  ELSE LET t == PType(ts, i + 2) IN IF ~t.ok THEN t ELSE
       LET d == POpt(ts, t.i, "?", "") IN IF ~d.ok THEN d ELSE
       LET a == Append(acc, [name |-> ts[i].s, ty |-> t.v, def |-> d.v]) IN
       CASE IsP(ts, d.i, ",") -> PParams(ts, d.i + 1, a)
         [] IsP(ts, d.i, ")") -> Good(a, d.i + 1)
         [] OTHER -> Bad(d.i)
RECURSIVE PImports(_, _, _)
PImports(ts, i, acc) ==
  IF ~IsId(ts, i) THEN Bad(i)
  ELSE LET al == IsP(ts, i + 1, "as")
           j == IF al THEN i + 3 ELSE i + 1
           a == Append(acc, [name |-> ts[i].s, as |-> IF al /\ IsId(ts, i + 2) THEN <<ts[i + 2].s>> ELSE <<>>])
       IN CASE al /\ ~IsId(ts, i + 2) -> Bad(i + 2)
            [] IsP(ts, j, ",") /\ IsP(ts, j + 1, "from") -> Good(a, j + 1)
            [] IsP(ts, j, ",") -> PImports(ts, j + 1, a)
            [] OTHER -> Good(a, j)
PDecl(ts, i) ==
  CASE IsP(ts, i, "type") ->
         IF ~IsId(ts, i + 1) THEN Bad(i + 1)
         ELSE LET p == IF IsP(ts, i + 2, "(") THEN PParams(ts, i + 3, <<>>) ELSE Good(<<>>, i + 2) IN
              IF ~p.ok THEN p ELSE IF ~IsP(ts, p.i, "=") THEN Bad(p.i)
              ELSE LET f == PField(ts, p.i + 1) IN IF ~f.ok THEN f ELSE Good([k |-> "type", name |-> ts[i + 1].s, args |-> p.v, f |-> f.v], f.i)
    [] IsP(ts, i, "const") ->
         IF ~IsId(ts, i + 1) THEN Bad(i + 1) ELSE IF ~IsP(ts, i + 2, ":") THEN Bad(i + 2)
         ELSE LET t == PType(ts, i + 3) IN
              IF ~t.ok THEN t ELSE IF ~IsP(ts, t.i, "=") THEN Bad(t.i)
              ELSE LET e == PExpr(ts, t.i + 1) IN IF ~e.ok THEN e ELSE Good([k |-> "const", name |-> ts[i + 1].s, ty |-> t.v, val |-> e.v], e.i)
    [] IsP(ts, i, "import_ffi") ->
         IF ~IsId(ts, i + 1) THEN Bad(i + 1) ELSE IF ~IsP(ts, i + 2, "as") THEN Bad(i + 2)
         ELSE IF \E w \in {"type", "transform", "function"} : IsP(ts, i + 3, w) THEN Good([k |-> "ffi", name |-> ts[i + 1].s, kind |-> ts[i + 3].s], i + 4) ELSE Bad(i + 3)
    [] IsP(ts, i, "import") ->
         LET a == PImports(ts, i + 1, <<>>) IN
         IF ~a.ok THEN a ELSE IF ~IsP(ts, a.i, "from") THEN Bad(a.i)
         ELSE IF T(ts, a.i + 1).t = "str" THEN Good([k |-> "import", items |-> a.v, from |-> ts[a.i + 1].b], a.i + 2) ELSE Bad(a.i + 1)
    [] OTHER -> Bad(i)
RECURSIVE PProg(_, _, _)
PProg(ts, i, acc) ==
  IF i > Len(ts) THEN Good(acc, i)
  ELSE LET d == PDecl(ts, i) IN
       IF ~d.ok THEN d ELSE IF IsP(ts, d.i, ";") THEN PProg(ts, d.i + 1, Append(acc, d.v)) ELSE Bad(d.i)
Parse(s) == LET l == Lex(s) IN IF ~l.ok THEN [ok |-> FALSE, i |-> 0] ELSE PProg(l.ts, 1, <<>>)
=============================================================================
