-------------------------------- MODULE Wire --------------------------------
(* The life of messages of randomly authored protocols.                      *)
(*   author -> choose -> send -> transit -> (deliver)* -> done -> choose ...  *)
(* An encoder turns a value into wire bytes (possibly onto a sink that fails *)
(* part way); the transit may truncate, flip, or extend them; a decoder sees *)
(* them arrive in pieces, and the source ends or fails.                      *)
(* Every finished message is written to Out as a test case whose expected    *)
(* outcome is the one reached here.                                          *)
EXTENDS Mods, CSV, Json
CONSTANTS Out,        \* file for cases
          PerProg,    \* messages per program
          Faults,     \* % of messages whose source or sink fails
          Tamper,     \* % of messages altered in transit
          SplitP,     \* % of programs that are split into modules
          FamMode,    \* "off": random programs, "fam": the focus' families, "mix": in turn
          FamOff, FamStep   \* the family programs this run takes: FamOff, FamOff + FamStep, ... (modulo their number)
VARIABLES ph,     \* phase
          prog,   \* the authored program (surface): its main module and the others
          el,     \* its elaboration
          m,      \* the message at hand
          n,      \* messages of this program so far
          id      \* programs so far
vars == <<ph, prog, el, m, n, id>>

Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, Out)
NoMsg == [none |-> TRUE]

Init == ph = "author" /\ prog = Whole(<<>>) /\ el = [st |-> "none"] /\ m = NoMsg /\ n = 0 /\ id = 0

---------------------------------------------------------------------------
\* what can be sent: the main module's own types, and what it imports
Users(u, e) ==
  LET own == UserTypes(u.main) IN
  SetToSq({x \in e.made : \A i \in 1..Len(own) : own[i].name # x[1]}) \o [i \in 1..Len(own) |-> <<own[i].name, e.P.tn[own[i].name]>>]
\* a program is taken up if it elaborates, should build, and its constants are sound
Usable(e) == e.st = "ok" /\ Supported(e.P) /\ ItemsFine(e.P) /\ \A x \in DOMAIN e.ld : ConstsFine(e.ld[x])
Author1 ==
  /\ ph = "author"
  /\ prog' = TLCEval(LET p == TLCEval(IF FamMode = "fam" THEN FamProg((FamOff + id * FamStep) % FamN)
                                     ELSE IF FamMode = "mix" /\ id % 2 = 0 THEN FamProg((FamOff + (id \div 2) * FamStep) % FamN)
                                     ELSE Author(id))
                     IN IF Chance(SplitP) THEN Split(p) ELSE Whole(p))
  /\ el' = TLCEval(Judge(prog'))
  /\ id' = id + 1 /\ n' = 0 /\ m' = NoMsg
  /\ LET r == [p |-> id', k |-> "prog", prog |-> prog'.main, st |-> el'.st] @@ (IF prog'.mods = NoMods THEN EmptyMap ELSE [mods |-> prog'.mods]) IN
     IF Usable(el')
     THEN /\ ph' = IF Users(prog', el') = <<>> THEN "author" ELSE "choose"
          /\ Emit(r @@ [sup |-> TRUE] @@ (IF prog'.mods = NoMods THEN EmptyMap ELSE [made |-> MadeDecls(prog', el')]))
     ELSE /\ ph' = "author"
          /\ Emit(r @@ [sup |-> FALSE])

\* later declarations contain the earlier ones: choose them more often
ChooseName(us) == LET i == Rnd(1, Len(us) + 2) IN us[IF i > Len(us) THEN Len(us) ELSE i]

\* (all random choice happens at expression level: TLC may evaluate an action-level LET twice)
NewMsg(P, us) ==
  LET pair == TLCEval(ChooseName(us))
      name == pair[2]
      spec == P.types[name].args
      given == TLCEval(GenTopArgs(P, spec, 1))
      as == TLCEval(BindTop(P, spec, given, 1, EmptyMap))
      dev == IF Chance(25) THEN 12 ELSE 0
      v == IF MapTraps(as) THEN TrapV ELSE TLCEval(GenTopV(P, name, as, dev))
  IN IF v.k = "trap" THEN NoMsg ELSE [t |-> pair[1], c |-> name, given |-> given, as |-> as, dev |-> dev, v |-> v]
Choose ==
  /\ ph = "choose"
  /\ m' = TLCEval(NewMsg(el.P, Users(prog, el)))
  /\ n' = IF m' = NoMsg THEN n + 1 ELSE n
  /\ ph' = IF m' # NoMsg THEN "send" ELSE IF n' >= PerProg THEN "author" ELSE "choose"
  /\ UNCHANGED <<prog, el, id>>

Sent(P, x) ==
  LET r == TLCEval(EncTop(P, x.c, x.v, x.as)) IN
  x @@ [enc |-> r, lim |-> IF r.st = "ok" /\ Len(r.b) > 0 /\ Chance(Faults) THEN Rnd(0, Len(r.b)) ELSE -1]
Send ==
  /\ ph = "send"
  /\ m' = TLCEval(Sent(el.P, m))
  /\ m'.enc.st # "trap" =>
        Emit([p |-> id, k |-> "enc", t |-> m.t, given |-> m.given, v |-> m.v, lim |-> m'.lim,
              st |-> IF m'.enc.st = "ok" /\ m'.lim >= 0 /\ m'.lim < Len(m'.enc.b) THEN "err" ELSE m'.enc.st,
              b |-> IF m'.enc.st = "ok" THEN m'.enc.b ELSE <<>>])
  /\ ph' = "transit"
  /\ UNCHANGED <<prog, el, n, id>>

SetAt(s, i, x) == [s EXCEPT ![i] = x]
Alter(b) ==
  LET c == Rnd(1, 6) IN
  CASE c = 1 -> Pre(b, Rnd(0, IF Len(b) = 0 THEN 0 ELSE Len(b) - 1))
    [] c = 2 /\ Len(b) > 0 -> SetAt(b, Rnd(1, Len(b)), Rnd(0, 255))
    [] c = 3 /\ Len(b) > 0 -> LET i == Rnd(1, Len(b)) IN SetAt(b, i, b[i] ^^ Of(<<1, 2, 128>>))
    [] c = 4 -> b \o RandB(Rnd(1, 4))
    [] c = 5 -> RandB(Rnd(0, 12))
    [] OTHER -> LET i == Rnd(0, Len(b)) IN Pre(b, i) \o <<Of(<<0, 1, 255>>)>> \o From(b, i)

Sending(x) ==
  LET b0 == IF x.enc.st = "ok" THEN x.enc.b ELSE RandB(Rnd(0, 12))
      alt == Chance(Tamper)
      b == TLCEval(IF alt THEN Alter(b0) ELSE b0)
  IN x @@ [inp |-> b, asis |-> ~alt /\ x.enc.st = "ok", got |-> <<>>, ch |-> <<>>, first |-> NeedD, at |-> 0,
           stop |-> IF Chance(Faults) THEN Rnd(0, Len(b)) ELSE -1]
Transit ==
  /\ ph = "transit"
  /\ m' = TLCEval(Sending(m))
  /\ ph' = "deliver"
  /\ UNCHANGED <<prog, el, n, id>>

\* one more piece arrives
Left == (IF m.stop >= 0 THEN m.stop ELSE Len(m.inp)) - Len(m.got)
Piece(P, x, left) ==
  LET c == IF Len(x.ch) >= 3 THEN left ELSE Rnd(1, IF left > 4 /\ Chance(50) THEN left ELSE IF left > 4 THEN 4 ELSE left)
      got == x.got \o SubSeq(x.inp, Len(x.got) + 1, Len(x.got) + c)
  IN [x EXCEPT !.got = got, !.ch = Append(@, c),
               !.first = IF @.st = "need" THEN TLCEval(DecTop(P, x.c, x.as, got, FALSE)) ELSE @,
               !.at = IF x.first.st = "need" THEN Len(got) ELSE @]
Deliver ==
  /\ ph = "deliver"
  /\ ph' = IF Left = 0 THEN "close" ELSE "deliver"
  /\ m' = IF Left = 0 THEN m ELSE TLCEval(Piece(el.P, m, Left))
  /\ UNCHANGED <<prog, el, n, id>>

\* the source ends (or fails): whatever is undecided is decided now
Final == IF m.stop >= 0
         THEN LET r == DecTop(el.P, m.c, m.as, m.got, FALSE) IN IF r.st = "need" THEN ErrD ELSE r
         ELSE DecTop(el.P, m.c, m.as, m.got, TRUE)
Close ==
  /\ ph = "close"
  /\ LET r == TLCEval(Final) IN
     /\ m' = m @@ [dec |-> r]
     /\ r.st # "trap" =>
          Emit([p |-> id, k |-> "dec", t |-> m.t, given |-> m.given, inp |-> m.inp, ch |-> m.ch, stop |-> m.stop,
                st |-> r.st, v |-> IF r.st = "ok" THEN r.v ELSE TrapV, n |-> IF r.st = "ok" THEN r.n ELSE 0,
                asis |-> m.asis])
  /\ ph' = "done"
  /\ UNCHANGED <<prog, el, n, id>>

Done ==
  /\ ph = "done"
  /\ n' = n + 1 /\ m' = NoMsg
  /\ ph' = IF n' >= PerProg THEN "author" ELSE "choose"
  /\ UNCHANGED <<prog, el, id>>

Next == Author1 \/ Choose \/ Send \/ Transit \/ Deliver \/ Close \/ Done
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* a decision once reached is never taken back by later bytes, by the end, or by a failure
Steady == ph = "done" /\ m.first.st # "need" =>
            m.dec = m.first \/ (m.first.st = "ok" /\ m.dec.st = "trap") \/ m.first.st = "trap"
\* what is decided never depends on bytes that had not arrived
Causal == ph = "done" /\ m.dec.st = "ok" => m.dec.n <= Len(m.got)
\* an undisturbed message never needs more than was sent, unless a length bound is too small for it
Verdict == ph = "done" => m.dec.st \in {"ok", "err", "trap"}
\* decoding is idempotent through encoding where nothing is recalculated, bounded by a length, or
\* ended by a terminator that the data may contain
\* (open arrays of elements that may have no width do not come back either)
RECURSIVE Solid(_, _)
Solid(P, t) ==
  CASE t.k \in {"sc", "f", "bool", "enum", "bits"} -> TRUE
    [] t.k = "ref" -> P.types[t.name].f.cond = <<>> /\ P.types[t.name].f.xf = <<>> /\ Solid(P, P.types[t.name].f.ty)
    [] t.k = "foreign" -> t.n \in VarNames \cup {"odd8"}
    [] t.k = "cont" -> ~t.tagged /\ \E i \in 1..Len(t.items) : LET it == t.items[i] IN it.k = "f" /\ it.f.cond = <<>> /\ it.f.xf = <<>> /\ Solid(P, it.f.ty)
    [] OTHER -> FALSE
RECURSIVE PlainT(_, _)
PlainT(P, t) ==
  /\ t.k = "arr" => t.mode # "term" /\ (t.mode = "ext" => Solid(P, t.el)) /\ PlainT(P, t.el)
  /\ t.k = "cont" =>
       /\ t.len = <<>>
       /\ \A i \in 1..Len(t.items) : t.items[i].k = "f" => t.items[i].f.calc = <<>> /\ PlainT(P, t.items[i].f.ty)
Plain(P) == \A x \in DOMAIN P.types : PlainT(P, P.types[x].f.ty)
Idem == ph = "done" /\ m.dec.st = "ok" /\ Plain(el.P) =>
  LET e == EncTop(el.P, m.c, m.dec.v, m.as) IN
  e.st = "ok" => LET d == DecTop(el.P, m.c, m.as, e.b, TRUE) IN d = [st |-> "ok", v |-> m.dec.v, n |-> Len(e.b)]
\* an undisturbed message comes out as it went in, and is consumed whole
Round == ph = "done" /\ m.asis /\ m.dev = 0 /\ m.stop = -1 /\ Plain(el.P) =>
  m.dec = [st |-> "ok", v |-> m.v, n |-> Len(m.inp)]
=============================================================================
