------------------------------ MODULE TraitImpl -----------------------------
(* Implementations of ink! trait definitions inside a contract: which trait a  *)
(* path denotes, and how the implementation must agree with that trait.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions,
          Places,      \* where traits named T may be declared
          Paths,       \* how the impl may refer to its trait
          Uses,        \* imports of the contract module: <<path, alias>>; alias "" keeps the name, path ending in "*" is a glob
          DeclMethods, ImplMethods,     \* universe of method records
          MaxDecl, MaxImpl, Extras

VARIABLES v, decl,   \* place -> sequence of method declarations; a place not in the domain declares no trait
          path, use, impl, extra, ph
vars == <<v, decl, path, use, impl, extra, ph>>

\* Modules: the file root, a module `tr` in it, the contract `c` and a module `tr` inside the contract.
Modules == {<<>>, <<"tr">>, <<"c">>, <<"c", "tr">>}
Here == <<"c">>
Butl(s) == SubSeq(s, 1, Len(s) - 1)
Fin(s)  == s[Len(s)]

None == <<"?">>
\* The module a sequence of segments denotes, starting in module m.
RECURSIVE Walk(_, _)
Walk(m, segs) == IF segs = <<>> THEN m
                 ELSE IF Append(m, segs[1]) \in Modules THEN Walk(Append(m, segs[1]), SubSeq(segs, 2, Len(segs)))
                 ELSE None
\* Qualifiers; imports of modules apply to the first segment of a relative path in the contract.
RECURSIVE ModOf(_, _)
ModOf(m, segs) ==
  IF segs = <<>> THEN m
  ELSE LET r == SubSeq(segs, 2, Len(segs)) IN
       CASE segs[1] = "crate" -> Walk(<<>>, r)
         [] segs[1] = "self"  -> Walk(m, r)
         [] segs[1] = "super" -> IF m = <<>> THEN None ELSE Walk(Butl(m), r)
         [] OTHER -> IF Append(m, segs[1]) \in Modules THEN Walk(m, segs)
                     ELSE IF m = Here /\ use # <<>> /\ Fin(use[1]) # "*"
                             /\ segs[1] = (IF use[2] = "" THEN Fin(use[1]) ELSE use[2])
                     THEN LET b == ModOf(m, use[1]) IN IF b = None THEN None ELSE Walk(b, r)
                     ELSE None

\* The declaration (place) a path denotes, or None.
Direct(m, name) == IF m # None /\ m \in DOMAIN decl /\ name = "T" THEN m ELSE None
ViaUse(name) ==
  IF use = <<>> THEN None
  ELSE IF Fin(use[1]) = "*" THEN Direct(ModOf(Here, Butl(use[1])), name)
  ELSE IF name = (IF use[2] = "" THEN Fin(use[1]) ELSE use[2]) THEN Direct(ModOf(Here, Butl(use[1])), Fin(use[1]))
  ELSE None
Resolved ==
  LET m == ModOf(Here, Butl(path)) IN
  IF Direct(m, Fin(path)) # None THEN Direct(m, Fin(path))
  ELSE IF m = Here THEN ViaUse(Fin(path)) ELSE None

-----------------------------------------------------------------------------
\* A method: name, ink! arguments (a set of kinds; selector carries a value), parameters and return type.
IsMsg(m)  == "message" \in m.args
D(m, x, y, a, j) == [m |-> m, x |-> x, y |-> y, a |-> a, j |-> j]

Decls(pl)    == decl[pl]
Named(s, nm) == {k \in 1..Len(s) : s[k].name = nm}

MethodDiags(j) ==
  LET i == impl[j]
      ds == Decls(Resolved)
      hit == Named(ds, i.name) IN
  IF hit = {} THEN {D("undeclared", i.name, "", "method", j)}
  ELSE LET d == ds[CHOOSE k \in hit : TRUE] IN
       IF ~IsMsg(d) THEN {}
       ELSE LET missing == d.args \ i.args IN
            {D("extra-arg", x, IF x = "selector" THEN i.sel ELSE "", x, j) : x \in i.args \ d.args}
            \cup (IF "selector" \in i.args \cap d.args /\ i.sel # d.sel THEN {D("value", i.sel, d.sel, "selector", j)} ELSE {})
            \cup (IF missing # {} THEN {D("missing-args", missing, d.sel, "method", j)} ELSE {})
            \cup (IF i.par # d.par THEN {D("params", "", "", "params", j)} ELSE {})
            \cup (IF i.ret = d.ret THEN {} ELSE IF d.ret = "" THEN {D("no-ret", "", "", "ret", j)} ELSE {D("ret", "", "", IF i.ret = "" THEN "sig" ELSE "ret", j)})

IsInkImpl  == Resolved # None \/ \E j \in 1..Len(impl) : IsMsg(impl[j])
ImplDiags ==
  (IF Resolved = None THEN {}
   ELSE UNION {MethodDiags(j) : j \in 1..Len(impl)}
        \cup {D("foreign-item", "", "", "extra", j) : j \in 1..Len(extra)}
        \cup (IF \E k \in 1..Len(Decls(Resolved)) : IsMsg(Decls(Resolved)[k]) /\ Named(impl, Decls(Resolved)[k].name) = {}
              THEN {D("missing", "", "", "impl", 1)} ELSE {}))
  \cup (IF IsInkImpl /\ ~\E j \in 1..Len(impl) : IsMsg(impl[j]) THEN {D("no-callable", "", "", "impl", 1)} ELSE {})

DefDiags ==
  UNION {{D("not-message", pl, "", "decl", k) : k \in {x \in 1..Len(Decls(pl)) : ~IsMsg(Decls(pl)[x])}}
         \cup (IF \A k \in 1..Len(Decls(pl)) : ~IsMsg(Decls(pl)[k]) THEN {D("no-message", pl, "", "trait", 1)} ELSE {}) : pl \in DOMAIN decl}

Diags == ImplDiags \cup DefDiags

-----------------------------------------------------------------------------
Init == /\ v \in Versions /\ decl = [pl \in {} |-> <<>>] /\ path \in Paths /\ use \in Uses /\ impl = <<>> /\ extra = <<>> /\ ph = 0

Declare(pl, ms) == /\ ph = 0 /\ pl \notin DOMAIN decl
                   /\ decl' = [x \in DOMAIN decl \cup {pl} |-> IF x = pl THEN ms ELSE decl[x]]
                   /\ UNCHANGED <<v, path, use, impl, extra, ph>>
\* Importing a name that the contract module declares itself is not Rust.
Clash == use # <<>> /\ Fin(use[1]) # "*"
         /\ LET nm == IF use[2] = "" THEN Fin(use[1]) ELSE use[2] IN
            (nm = "T" /\ Here \in DOMAIN decl) \/ nm = "tr"
Write == /\ ph = 0 /\ ph' = 1 /\ ~Clash /\ UNCHANGED <<v, decl, path, use, impl, extra>>
Implement(m) == /\ ph = 1 /\ Len(impl) < MaxImpl /\ Named(impl, m.name) = {} /\ extra = <<>>
                /\ impl' = Append(impl, m) /\ UNCHANGED <<v, decl, path, use, extra, ph>>
AddExtra(e) == /\ ph = 1 /\ Len(extra) < 1
               /\ extra' = Append(extra, e) /\ UNCHANGED <<v, decl, path, use, impl, ph>>

DeclSeqs == {s \in UNION {[1..k -> DeclMethods] : k \in 1..MaxDecl} : \A a, b \in DOMAIN s : s[a].name = s[b].name => a = b}
Next == \/ \E pl \in Places : \E ms \in DeclSeqs : Declare(pl, ms)
        \/ Write
        \/ \E m \in ImplMethods : Implement(m)
        \/ \E e \in Extras : AddExtra(e)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == path # <<>> /\ (use = <<>> \/ Len(use) = 2)
\* An implementation that repeats the declared messages, and nothing else, is accepted.
Copy == (ph = 1 /\ Resolved # None /\ extra = <<>> /\ (\E k \in 1..Len(impl) : IsMsg(impl[k]))
         /\ {impl[k] : k \in 1..Len(impl)} = {Decls(Resolved)[k] : k \in {x \in 1..Len(Decls(Resolved)) : IsMsg(Decls(Resolved)[x])}})
        => ImplDiags = {}
\* And any deviation from that is reported.
Deviation == (ph = 1 /\ Resolved # None /\ ImplDiags = {}) =>
     \A k \in 1..Len(Decls(Resolved)) : IsMsg(Decls(Resolved)[k]) => \E j \in 1..Len(impl) : impl[j] = Decls(Resolved)[k]
\* Other traits do not matter.
OnlyResolved == (ph = 1 /\ Resolved = None) => ImplDiags = {}

Emit == ph = 1 => PrintT(ToJson([v |-> v, path |-> path, use |-> use, impl |-> impl, extra |-> extra, d |-> Diags,
                                 places |-> [k \in 1..Cardinality(DOMAIN decl) |-> LET s == CHOOSE q \in [1..Cardinality(DOMAIN decl) -> DOMAIN decl] : \A a, b \in DOMAIN q : a # b => q[a] # q[b] IN [at |-> s[k], ms |-> decl[s[k]]]]]))
=============================================================================
