------------------------------- MODULE Consts -------------------------------
(***************************************************************************)
(* Constants, enum items and bitmask values of a schema.  One behaviour    *)
(* per declaration: it is evaluated in the scope of its package; the laws  *)
(* that relate consecutive items are invariants; what a user of the        *)
(* generated code sees is emitted for replay.                              *)
(***************************************************************************)
EXTENDS Zserio, Json, IOUtils, CSV

SchemaFile == JsonDeserialize(IOEnv.ZS_SCHEMA)
Job == JsonDeserialize(IOEnv.ZS_JOB)          \* [out, from, to : package numbers]

VARIABLES r, ph, x                            \* declaration, phase, its value(s)
vars == <<r, ph, x>>

Refs == UNION {{<<p, n>> : n \in {m \in DOMAIN Pkgs[p].decls : Pkgs[p].decls[m].k \in {"const", "enum", "mask"}}}
               : p \in 1..Len(Pkgs)}
FullName == Pkgs[r[1]].name \o "." \o r[2]

Init == r \in Refs /\ ph = "start" /\ x = NoMap
Evaluate == /\ ph = "start" /\ ph' = "known" /\ UNCHANGED r
            /\ x' = CASE Decl(r).k = "const" ->
                           LET v == ConstVal(r)
                               rt == ResType(Decl(r).type, Scope(r[1], NoMap))
                           IN [v |-> IF Undef(v) THEN [any |-> TRUE] ELSE IF IsFloat(rt) THEN Store(rt, v) ELSE v.v,
                               any |-> Undef(v), t |-> rt]
                      [] Decl(r).k = "enum" -> [v |-> EnumVals(r), any |-> FALSE]
                      [] OTHER -> [v |-> MaskVals(r), any |-> FALSE]
Case == [i |-> r[1], root |-> FullName, ops |-> << [op |-> "const", n |-> FullName] >>, exp |-> << x.v >>]
Emit == /\ ph = "known" /\ ph' = "done" /\ UNCHANGED r
        /\ (IF Decl(r).k = "const" THEN CSVWrite("%1$s", <<ToJson(Case)>>, Job.out \o ToString(r[1]) \o FullName) ELSE TRUE)
        /\ x' = NoMap
Next == Evaluate \/ Emit
Spec == Init /\ [][Next]_vars

Items == Decl(r).items
Explicit(i) == Items[i].val # <<>>
\* a constant is a value of its type
InType == ph = "known" /\ Decl(r).k = "const" /\ ~x.any /\ x.t.k = "prim" /\ IsNumPrim(x.t.t) => PrimOk(x.t.t, x.v)
EnumLaw == ph = "known" /\ Decl(r).k = "enum" =>
    /\ Len(x.v) = Len(Items)
    /\ \A i \in 1..Len(Items) :
         /\ PrimOk(EnumBase(r), x.v[i])
         /\ ~Explicit(i) => x.v[i] = IF i = 1 THEN BZero ELSE BAdd(x.v[i - 1], BOne)
         /\ \A j \in 1..Len(Items) : i # j => x.v[i] # x.v[j]
\* an implicit bitmask value is the single bit above everything the previous value has
MaskLaw == ph = "known" /\ Decl(r).k = "mask" =>
    /\ Len(x.v) = Len(Items)
    /\ \A i \in 1..Len(Items) :
         /\ PrimOk(EnumBase(r), x.v[i])
         /\ ~Explicit(i) => /\ \E b \in 0..63 : x.v[i] = BPow2(b)
                            /\ i > 1 => /\ BLt(x.v[i - 1], x.v[i])
                                        /\ BLe(x.v[i], BMul(BI(2), BAdd(x.v[i - 1], BOne)))
                            /\ i = 1 => x.v[i] = BOne
=============================================================================
