-------------------------------- MODULE Mods --------------------------------
(* Splitting a program into modules: every declaration gets a home, every      *)
(* module declares or imports what it mentions - under the same name or        *)
(* another, from its home or through a module that has it in scope - and names *)
(* may be reused in different modules.  The order of modules follows the order *)
(* of dependencies, so a split of a well-formed program is well-formed, unless *)
(* it is then damaged or names clash.                                          *)
EXTENDS Fam

\* ---------------------------------------------------------------- names that surface syntax mentions, and renaming them
RECURSIVE MX(_)
RECURSIVE MT(_)
RECURSIVE MF(_)
MXs(es) == UNION {MX(es[i]) : i \in 1..Len(es)}
MX(e) ==
  CASE e.k = "id" -> {e.n}
    [] e.k = "ev" -> {e.e}
    [] e.k = "call" -> {e.f} \cup MXs(e.a)
    [] e.k = "un" -> MX(e.x)
    [] e.k = "bin" -> MX(e.l) \cup MX(e.r)
    [] e.k = "cast" -> MX(e.x) \cup MT(e.ty)
    [] e.k = "tern" -> MX(e.c) \cup MX(e.t) \cup MX(e.f)
    [] e.k = "idx" -> MX(e.x) \cup MX(e.i)
    [] e.k = "mem" -> MX(e.x)
    [] OTHER -> {}
MT(t) ==
  CASE t.k = "ref" -> {t.name} \cup MXs(t.args)
    [] t.k = "arr" -> MT(t.el) \cup MXs(t.len)
    [] t.k = "cont" -> MXs(t.len) \cup UNION {IF t.items[i].k = "pad" THEN MX(t.items[i].len) ELSE MF(t.items[i].f) : i \in 1..Len(t.items)}
    [] t.k \in {"enum", "bits"} -> UNION {MXs(t.items[i].val) : i \in 1..Len(t.items)}
    [] OTHER -> {}
MF(f) == MT(f.ty) \cup MXs(f.calc) \cup MXs(f.cond) \cup UNION {{f.xf[i].name} \cup MXs(f.xf[i].args) \cup MXs(f.xf[i].cond) : i \in 1..Len(f.xf)}
MD(d) == CASE d.k = "type" -> MF(d.f) \cup UNION {MT(d.args[i].ty) \cup MXs(d.args[i].def) : i \in 1..Len(d.args)}
           [] d.k = "const" -> MT(d.ty) \cup MX(d.val)
           [] OTHER -> {}

Rn(r, n) == IF n \in DOMAIN r THEN r[n] ELSE n
Map(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])
RECURSIVE RX(_, _)
RECURSIVE RT(_, _)
RECURSIVE RF(_, _)
RXs(r, es) == Map(es, LAMBDA e : RX(r, e))
RX(r, e) ==
  CASE e.k = "id" -> [e EXCEPT !.n = Rn(r, @)]
    [] e.k = "ev" -> [e EXCEPT !.e = Rn(r, @)]
    [] e.k = "call" -> [e EXCEPT !.a = RXs(r, @)]
    [] e.k = "un" -> [e EXCEPT !.x = RX(r, @)]
    [] e.k = "bin" -> [e EXCEPT !.l = RX(r, @), !.r = RX(r, @)]
    [] e.k = "cast" -> [e EXCEPT !.x = RX(r, @), !.ty = RT(r, @)]
    [] e.k = "tern" -> [e EXCEPT !.c = RX(r, @), !.t = RX(r, @), !.f = RX(r, @)]
    [] e.k = "idx" -> [e EXCEPT !.x = RX(r, @), !.i = RX(r, @)]
    [] e.k = "mem" -> [e EXCEPT !.x = RX(r, @)]
    [] OTHER -> e
RT(r, t) ==
  CASE t.k = "ref" -> [t EXCEPT !.name = Rn(r, @), !.args = RXs(r, @)]
    [] t.k = "arr" -> [t EXCEPT !.el = RT(r, @), !.len = RXs(r, @)]
    [] t.k = "cont" -> [t EXCEPT !.len = RXs(r, @), !.items = Map(@, LAMBDA it : IF it.k = "pad" THEN [it EXCEPT !.len = RX(r, @)] ELSE [it EXCEPT !.f = RF(r, @)])]
    [] t.k \in {"enum", "bits"} -> [t EXCEPT !.items = Map(@, LAMBDA it : [it EXCEPT !.val = RXs(r, @)])]
    [] OTHER -> t
RF(r, f) == [f EXCEPT !.ty = RT(r, @), !.calc = RXs(r, @), !.cond = RXs(r, @),
                      !.xf = Map(@, LAMBDA x : [x EXCEPT !.name = Rn(r, @), !.args = RXs(r, @), !.cond = RXs(r, @)])]
RDecl(r, d) == CASE d.k = "type" -> [d EXCEPT !.name = Rn(r, @), !.f = RF(r, @), !.args = Map(@, LAMBDA a : [a EXCEPT !.ty = RT(r, @), !.def = RXs(r, @)])]
                 [] d.k = "const" -> [d EXCEPT !.name = Rn(r, @), !.ty = RT(r, @), !.val = RX(r, @)]
                 [] OTHER -> d

\* ---------------------------------------------------------------- the split
\* things with a name: the declarations of the program (foreign types and transforms among them)
ModName == <<"m1", "lib/m2", "m3", "m4.pspec", "main">>
Own(p) == SelectSeq(p, LAMBDA d : d.k # "import" /\ ~(d.k = "ffi"))
FfiKind == [n \in {Ffis[i].name : i \in 1..Len(Ffis)} |-> (CHOOSE d \in {Ffis[i] : i \in 1..Len(Ffis)} : d.name = n).kind]
\* home of each declaration, never before what it mentions; k = Len(ds) at the end is the main module
RECURSIVE Homes(_, _, _, _)
Homes(ds, i, k, acc) ==
  IF i > Len(ds) THEN acc
  ELSE LET need == {acc[j] : j \in {x \in 1..(i - 1) : ds[x].name \in MD(ds[i])}}
           lo == IF need = {} THEN 1 ELSE CHOOSE x \in need : \A y \in need : y <= x
       IN Homes(ds, i + 1, k, Append(acc, IF i = Len(ds) THEN k ELSE IF Chance(35) THEN lo ELSE Rnd(lo, k)))
\* own names: mostly as they are, sometimes one that another module uses too
RECURSIVE Owns(_, _, _, _)
Owns(ds, hs, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE LET js == SelectSeq([x \in 1..(i - 1) |-> x], LAMBDA x : ds[x].k = ds[i].k /\ hs[x] # hs[i])
           n == IF js # <<>> /\ hs[i] # hs[Len(hs)] /\ Chance(8) THEN acc[Of(js)] ELSE ds[i].name
           taken == \E x \in 1..Len(ds) : x # i /\ hs[x] = hs[i] /\ n = (IF x < i THEN acc[x] ELSE ds[x].name)
       IN Owns(ds, hs, i + 1, Append(acc, IF taken THEN ds[i].name ELSE n))
Fresh(m, n) == n \o "_" \o Dig(m)
\* names in scope of module m, from original names; what it imports; what it declares itself
\* sc : sequence over modules of functions original name -> name there
SetToSq(S) == LET RECURSIVE go(_)  go(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o go(T \ {x}) IN go(S)
Clash(loc, n) == \E x \in DOMAIN loc : loc[x] = n
\* one import: [loc, imps, ffis]
Bring(ds, hs, sc, m, o, st) ==
  LET hosts == SelectSeq([x \in 1..(m - 1) |-> x], LAMBDA x : o \in DOMAIN sc[x])
      host == IF \E i \in 1..Len(ds) : ds[i].name = o /\ Chance(60) THEN hs[CHOOSE i \in 1..Len(ds) : ds[i].name = o] ELSE Of(hosts)
      there == sc[host][o]
      as == LET c == Rnd(1, 10) IN IF c <= 6 /\ ~Clash(st.loc, there) /\ there \notin {ds[i].name : i \in 1..Len(ds)} \ {o} THEN there ELSE IF c <= 8 /\ ~Clash(st.loc, o) THEN o ELSE Fresh(m, o)
  IN [st EXCEPT !.loc = (o :> as) @@ @,
                !.imps = Append(@, [from |-> host, it |-> [name |-> there, as |-> IF as = there THEN (IF Chance(8) THEN <<as>> ELSE <<>>) ELSE <<as>>]])]
RECURSIVE BringAll(_, _, _, _, _, _)
BringAll(ds, hs, sc, m, os, st) ==
  IF os = <<>> THEN st
  ELSE LET o == Head(os)
           hosts == SelectSeq([x \in 1..(m - 1) |-> x], LAMBDA x : o \in DOMAIN sc[x])
           isF == o \in DOMAIN FfiKind
           st2 == IF o \in DOMAIN st.loc THEN st
                  ELSE IF isF /\ (hosts = <<>> \/ FfiKind[o] = "function" \/ Chance(50)) THEN [st EXCEPT !.loc = (o :> o) @@ @, !.ffis = Append(@, o)]
                  ELSE IF hosts = <<>> THEN st
                  ELSE Bring(ds, hs, sc, m, o, st)
       IN BringAll(ds, hs, sc, m, Tail(os), st2)
RECURSIVE ImpDecls(_)
ImpDecls(imps) ==      \* statements: items from the same module may share one
  IF imps = <<>> THEN <<>>
  ELSE LET h == Head(imps)
           n == IF Len(imps) > 1 /\ imps[2].from = h.from /\ Chance(70) THEN 2 ELSE 1
       IN <<[k |-> "import", items |-> [i \in 1..n |-> imps[i].it], from |-> (IF Chance(10) THEN "./" ELSE "") \o ModName[h.from]]>> \o ImpDecls(SubSeq(imps, n + 1, Len(imps)))
\* imports and declarations in any order, declarations among themselves in theirs
RECURSIVE Riffle(_, _)
Riffle(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF Chance(60) THEN <<Head(a)>> \o Riffle(Tail(a), b) ELSE <<Head(b)>> \o Riffle(a, Tail(b))
RECURSIVE SplitR(_, _, _, _, _, _, _)
SplitR(ds, hs, os, k, m, sc, acc) ==
  IF m > k THEN acc
  ELSE LET mine == SelectSeq([x \in 1..Len(ds) |-> x], LAMBDA x : hs[x] = m)
           loc0 == [n \in {ds[mine[i]].name : i \in 1..Len(mine)} |-> os[CHOOSE x \in 1..Len(ds) : ds[x].name = n /\ hs[x] = m]]
           ment == UNION {MD(ds[mine[i]]) : i \in 1..Len(mine)}
           more == {n \in UNION {DOMAIN sc[x] : x \in 1..(m - 1)} : Chance(4)}
           st == TLCEval(BringAll(ds, hs, sc, m, SetToSq(ment \cup more), [loc |-> loc0, imps |-> <<>>, ffis |-> <<>>]))
           decls == Map(mine, LAMBDA x : [RDecl(st.loc, ds[x]) EXCEPT !.name = os[x]])
           ffi == Map(st.ffis, LAMBDA n : DFfi(n, FfiKind[n]))
           prog == Riffle(ImpDecls(st.imps), ffi \o decls)
           vis == [n \in {x \in DOMAIN st.loc : x \notin DOMAIN FfiKind \/ FfiKind[x] # "function"} |-> st.loc[n]]
       IN SplitR(ds, hs, os, k, m + 1, Append(sc, vis), Append(acc, prog))

\* ---------------------------------------------------------------- damage done to a split
HurtMods(ms) ==       \* ms : programs, the last is the main one
  LET k == Len(ms)  m == Rnd(1, k)
      is == SelectSeq([x \in 1..Len(ms[m]) |-> x], LAMBDA x : ms[m][x].k = "import")
      c == Rnd(1, 12) IN
  IF is = <<>> \/ c <= 2 THEN
    (CASE c = 1 -> [ms EXCEPT ![m] = Append(@, [k |-> "import", items |-> <<[name |-> Of(<<"T1", "E1", "K1", "nope", "utf8", "xadd", "sum">>), as |-> <<>>]>>, from |-> ModName[Rnd(1, k)]])]
       [] c = 2 -> [ms EXCEPT ![m] = Append(@, [k |-> "import", items |-> <<[name |-> "T1", as |-> <<>>]>>, from |-> Of(<<"nomod", "m1", "./m1", "../m1">>)])]
       [] OTHER -> [ms EXCEPT ![m] = SelectSeq(@, LAMBDA d : ~Chance(20))])
  ELSE LET i == Of(is)  d == ms[m][i]  j == Rnd(1, Len(d.items)) IN
    CASE c = 3 -> [ms EXCEPT ![m][i].items[j].name = Of(<<"T1", "E1", "K1", "nope", "fmix">>)]
      [] c = 4 -> [ms EXCEPT ![m][i].items[j].as = <<Of(<<"T1", "E1", "K1", "Q1", "v8", "xadd">>)>>]
      [] c = 5 -> [ms EXCEPT ![m][i].from = ModName[Rnd(1, k)]]
      [] c = 6 -> [ms EXCEPT ![m] = Append(@, d)]
      [] c = 7 -> [ms EXCEPT ![m] = Drop(@, i)]
      [] c = 8 -> [ms EXCEPT ![m][i].items[j].as = <<>>]
      [] c = 9 -> [ms EXCEPT ![m] = Append(@, [d EXCEPT !.items[j].as = <<Of(<<"Q1", "Q2", "E1">>)>>])]
      [] c = 10 -> [ms EXCEPT ![m] = InsAt(Drop(@, i), 1, d)]
      [] c = 11 -> [ms EXCEPT ![Rnd(1, k)] = Append(@, d)]
      [] OTHER -> [ms EXCEPT ![m] = SelectSeq(@, LAMBDA x : x.k = "import" \/ ~Chance(15))]

Whole(p) == [main |-> p, mods |-> NoMods]
Split(p) ==
  LET ds == Own(p)
      k == Of(<<2, 2, 3, 3, 4, 5>>)
      hs == TLCEval(Homes(ds, 1, k, <<>>))
      os == TLCEval(Owns(ds, hs, 1, <<>>))
      ms == TLCEval(SplitR(ds, hs, os, k, 1, <<>>, <<>>))
      h == IF Chance((Wild + 1) \div 2) THEN TLCEval(HurtMods(ms)) ELSE ms
  IN IF ds = <<>> THEN Whole(p)
     ELSE [main |-> h[k], mods |-> [n \in {ModName[i] : i \in 1..(k - 1)} |-> h[CHOOSE i \in 1..(k - 1) : ModName[i] = n]]]

\* ---------------------------------------------------------------- a unit of translation
Judge(u) == IF u.mods = NoMods
            THEN LET e == Elab(u.main) IN IF e.st = "ok" THEN e @@ [ld |-> NoMods, made |-> {x \in Made(e.P) : Native(e.P, x[2])}] ELSE e
            ELSE ElabMods(u.main, u.mods)
\* the Rust names of the types made, with the declaration each stands for (parameter types by their Rust names)
ParamTy(P, t) == IF t.k = "ref" THEN [t EXCEPT !.name = IF Native(P, P.tn[@]) THEN P.types[P.tn[@]].own ELSE P.tn[@]] ELSE t
MadeDecls(u, e) == LET s == SetToSq(e.made) IN
  [i \in 1..Len(s) |->
    LET c == e.P.types[s[i][2]]
        Q == IF c.home = "" THEN e.P ELSE e.ld[c.home]
        src == IF c.home = "" THEN u.main ELSE u.mods[c.home]
        d == CHOOSE x \in ToSet(src) : x.k = "type" /\ x.name = c.own
    IN [d |-> [d EXCEPT !.args = Map(@, LAMBDA a : [a EXCEPT !.ty = ParamTy(Q, @)])], as |-> s[i][1]]]
=============================================================================
