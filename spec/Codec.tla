-------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Encoding and decoding as behaviours.  One behaviour per case number:    *)
(* an object of some type of the schema comes into being, is encoded at    *)
(* some bit position, is decoded from a stream with other data around it,  *)
(* and finally damaged or arbitrary streams are decoded.  TLC checks the   *)
(* invariants below in every state and, when a behaviour is complete,      *)
(* writes it to a file, together with what every step must result in, for  *)
(* replay on the implementation.                                           *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils, CSV

SchemaFile == JsonDeserialize(IOEnv.ZS_SCHEMA)       \* substituted for Schema
Job == JsonDeserialize(IOEnv.ZS_JOB)                 \* what to generate
\* Job: [seed, from, to, out, roots : << [p, n] >>, bad : number of damaged streams,
\*       used : decode into used objects too, fns : call functions]

VARIABLES i, ph, x
vars == <<i, ph, x>>

H(k) == Mix(Mix(Job.seed, i), k)
Root == Job.roots[(i % Len(Job.roots)) + 1]
RT == TypeOf(Root.p, Root.n)
FullName == Pkgs[Root.p].name \o "." \o Root.n

\* parameters for a top-level object: any values its selector accepts
GenParamRec(h) ==
    LET ps == Decl(RT.r).params IN
    [n \in {ps[k].name : k \in 1..Len(ps)} |->
        LET k == FieldIdx(ps, n) IN GenNamed(RT, ps[k], ResType(ps[k].type, CompScope(RT)), PkgEnv(Root.p), Mix(h, k), 0)]
ParamsFit(ps) == RT.k # "choice" \/ ChoiceSel(RT, "$" :> ps).ok
RECURSIVE FitParams(_, _)
FitParams(h, k) == LET ps == GenParamRec(Mix(h, k)) IN IF ParamsFit(ps) \/ k > 60 THEN ps ELSE FitParams(h, k + 1)

GenObj1(h) == LET ps == FitParams(Mix(h, 1), 0) IN GenComp(RT, ps, Mix(h, 2), 0)
\* an object all of whose expressions have values
RECURSIVE GenObjK(_, _)
GenObjK(h, k) == LET v == GenObj1(h) IN IF k = 0 \/ DefinedComp(RT, v) THEN v ELSE GenObjK(Mix(h, 99), k - 1)
GenObj(h) == GenObjK(h, 10)

Ones(n) == [k \in 1..n |-> 1]
\* other data behind the object, filling the last byte
Tail1(h, n) == RndBits(h, ((8 - (n % 8)) % 8) + 8 * Rnd(Mix(h, 3), 3))

Init == /\ i \in Job.from..Job.to
        /\ ph = "start"
        /\ x = NoMap

MakeObject == /\ ph = "start"
              /\ x' = [v |-> GenObj(H(1))]
              /\ ph' = IF DefinedComp(RT, x'.v) THEN "object" ELSE "none"
              /\ UNCHANGED i

Write == /\ ph = "object" /\ ph' = "written"
         /\ LET pos == IF Rnd(H(2), 3) = 0 THEN 0 ELSE Rnd(H(3), 40)
            IN x' = x @@ [pos |-> pos, bits |-> Encode(RT, x.v, pos)]
         /\ UNCHANGED i

Read == /\ ph = "written" /\ ph' = "read"
        /\ LET bits == Ones(x.pos) \o x.bits
               stream == bits \o Tail1(H(4), Len(bits))
           IN x' = x @@ [stream |-> stream, back |-> Decode(RT, x.v["$"], stream, x.pos),
                         canon |-> Canon(RT, x.v)]
        /\ UNCHANGED i

\* damaged streams start at bit 0
BadStream(k) == LET ok0 == BitsBytes(Encode(RT, x.v, 0))
                    one == Corrupt(ok0, H(50 + k))
                IN IF Rnd(H(80 + k), 4) = 0 THEN Corrupt(one, H(90 + k)) ELSE one
ReadDamaged == /\ ph = "read" /\ ph' = "damaged"
               /\ x' = x @@ [bad |-> [k \in 1..Job.bad |->
                                LET b == BadStream(k) IN
                                [b |-> b, r |-> Decode(RT, x.v["$"], BytesBits(b), 0)]]]
               /\ UNCHANGED i

\* ---------------------------------------------------------- emission ------
FnVal(f) == LET e == Call(RT, x.v, f.name)
                t == ResType(f.type, CompScope(RT))
            IN IF Undef(e) THEN Inactive ELSE Store(t, e)
\* chunk: the pre-allocation limit in force, which must make no difference
Dec(b, pos, chunks, extra) ==
    [op |-> "dec", ty |-> FullName, ps |-> x.v["$"], b |-> b, pos |-> pos, again |-> TRUE,
     chunk |-> chunks[Rnd(H(7), Len(chunks)) + 1]] @@ extra
AnyChunk == <<0, 1, 3, 1000, 1000000>>
SmallChunk == <<0, 1, 3, 1000>>
DecExp(r, pos) == IF r.ok THEN [ok |-> TRUE, n |-> r.pos - pos, v |-> r.v,
                                bits |-> Encode(RT, r.v, pos)]
                  ELSE r
\* a used object of the same type, with other contents, for the decoder to overwrite
Used == GenComp(RT, x.v["$"], H(9), 0)
\* streams that claim very many elements without any bits mean a long loop and
\* nothing else: not replayed
Bad0 == SelectSeq(x.bad, LAMBDA d : d.r.ok \/ d.r.err # "huge")
\* what a stream without a meaning is decoded to is open, but it is the same for a
\* fresh object and for a used one: like |-> TRUE, "as in the step before"
Twice(d) == Job.used /\ ~d.r.ok /\ d.r.err = "loose"
RECURSIVE Bads(_)
Bads(k) == IF k > Len(Bad0) THEN <<>>
           ELSE LET d == Bad0[k] IN
                (IF Twice(d) THEN << [d |-> d, used |-> FALSE, like |-> FALSE], [d |-> d, used |-> TRUE, like |-> TRUE] >>
                 ELSE << [d |-> d, used |-> Job.used /\ k % 2 = 0, like |-> FALSE] >>) \o Bads(k + 1)
Case == LET Bad == Bads(1) IN
    [i |-> i, root |-> FullName,
     ops |-> << [op |-> "enc", ty |-> FullName, v |-> x.v, pos |-> x.pos],
                Dec(BitsBytes(x.stream), x.pos, AnyChunk, NoMap) >>
             \o (IF Job.used THEN << Dec(BitsBytes(x.stream), x.pos, AnyChunk, "before" :> Used) >> ELSE <<>>)
             \o [k \in 1..Len(Bad) |-> Dec(Bad[k].d.b, 0, SmallChunk, IF Bad[k].used THEN "before" :> Used ELSE NoMap)]
             \o (IF Len(Decl(RT.r).funcs) > 0
                 THEN << [op |-> "fn", ty |-> FullName, v |-> x.v,
                          fs |-> [k \in 1..Len(Decl(RT.r).funcs) |-> Decl(RT.r).funcs[k].name]] >> ELSE <<>>),
     exp |-> << [bits |-> x.bits], DecExp(x.back, x.pos) >>
             \o (IF Job.used THEN << DecExp(x.back, x.pos) >> ELSE <<>>)
             \o [k \in 1..Len(Bad) |-> DecExp(Bad[k].d.r, 0) @@ (IF Bad[k].like THEN "like" :> TRUE ELSE NoMap)]
             \o (IF Len(Decl(RT.r).funcs) > 0
                 THEN << [k \in 1..Len(Decl(RT.r).funcs) |-> FnVal(Decl(RT.r).funcs[k])] >> ELSE <<>>)]
Emit == /\ ph = "damaged" /\ ph' = "done"
        /\ CSVWrite("%1$s", <<ToJson(Case)>>, Job.out \o ToString(i))
        /\ x' = NoMap
        /\ UNCHANGED i

Next == MakeObject \/ Write \/ Read \/ ReadDamaged \/ Emit
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- invariants ----
\* what was written is read back: same value, exactly the same bits, nothing else
RoundTrip == ph = "read" => /\ x.back.ok
                            /\ x.back.v = x.canon
                            /\ x.back.pos = x.pos + Len(x.bits)
\* decoding arbitrary streams gives a value or one of the known errors
Total == ph = "damaged" =>
    \A k \in 1..Len(x.bad) : \/ x.bad[k].r.ok
                             \/ x.bad[k].r.err \in {"eof", "size", "utf8", "enum", "tag", "case", "loose", "huge"}
\* every prefix of an encoding that lacks at least a bit fails, or the value read is not longer than the prefix
NoOverread == ph = "damaged" =>
    \A k \in 1..Len(x.bad) : x.bad[k].r.ok => x.bad[k].r.pos <= 8 * Len(x.bad[k].b)
\* re-encoding what was decoded is canonical: decoding that again gives the same value
Canonical == ph = "damaged" =>
    \A k \in 1..Len(x.bad) : x.bad[k].r.ok =>
        LET b == Encode(RT, x.bad[k].r.v, 0)
            r == Decode(RT, x.v["$"], b, 0)
        IN r.ok /\ r.v = Canon(RT, x.bad[k].r.v) /\ r.pos = Len(b)
=============================================================================
