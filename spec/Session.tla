------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* A user of the library over time: objects and output streams live across *)
(* calls, and the calls may come in any order.  The state is what the user *)
(* can rely on: the value each object holds, the bits each output stream   *)
(* has, and the pre-allocation limit.  What a call returns is a function   *)
(* of its arguments and of the value of its object - never of how the      *)
(* object came by that value, of earlier failures, or of other objects.    *)
(*                                                                         *)
(* mode "all": TLC visits every sequence of calls up to the given length.  *)
(* mode "rnd": one long pseudo-random sequence per case number.            *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils, CSV

SchemaFile == JsonDeserialize(IOEnv.ZS_SCHEMA)
Job == JsonDeserialize(IOEnv.ZS_JOB)
\* Job: [seed, from, to, out, roots : << [p, n] >>, mode, len]

VARIABLES i, k, objs, outs, hist, exp, tag      \* tag names the sequence of calls
vars == <<i, k, objs, outs, hist, exp, tag>>

H(a) == Mix(Mix(Job.seed, i), a)
Root == Job.roots[(i % Len(Job.roots)) + 1]
RT == TypeOf(Root.p, Root.n)
FullName == Pkgs[Root.p].name \o "." \o Root.n
Plain == Len(Decl(RT.r).params) = 0          \* usable through from_bytes and the like

GenParamRec(h) ==
    LET ps == Decl(RT.r).params IN
    [n \in {ps[j].name : j \in 1..Len(ps)} |->
        LET j == FieldIdx(ps, n) IN GenNamed(RT, ps[j], ResType(ps[j].type, CompScope(RT)), PkgEnv(Root.p), Mix(h, j), 0)]
ParamsFit(ps) == RT.k # "choice" \/ ChoiceSel(RT, "$" :> ps).ok
RECURSIVE FitParams(_, _)
FitParams(h, n) == LET ps == GenParamRec(Mix(h, n)) IN IF ParamsFit(ps) \/ n > 60 THEN ps ELSE FitParams(h, n + 1)

Ones(n) == [j \in 1..n |-> 1]
NPool == 3
Slots == 1..2
Outs == 1..2

\* all objects of a session have the same parameters, so that any object of the
\* session can take up any stream of the session
SessPs == FitParams(H(1), 0)
Pool(j) == GenComp(RT, SessPs, H(10 + j), 0)
\* stream j: [pos, b, r]; 1..NPool are encodings, with other data behind them; the rest is damaged
SPos(j) == IF j = 1 THEN 0 ELSE Rnd(H(20 + j), 20)
Stream(j) ==
    LET src == ((j - 1) % NPool) + 1
        pos == IF j > NPool THEN 0 ELSE SPos(j)
        bits == Ones(pos) \o Encode(RT, Pool(src), pos)
        good == BitsBytes(bits \o RndBits(H(30 + j), ((8 - (Len(bits) % 8)) % 8) + 8 * Rnd(H(40 + j), 3)))
    IN [pos |-> pos, b |-> IF j <= NPool THEN good ELSE Corrupt(good, H(50 + j + 100 * k))]
NStreams == NPool + 2

\* an object: its value, if it has one that is known
NoValue == [has |-> FALSE, ps |-> FALSE, v |-> NoMap]
Value(v) == [has |-> TRUE, ps |-> TRUE, v |-> v]
Junk0(o) == [has |-> FALSE, ps |-> o.ps, v |-> NoMap]         \* after a failed decode: parameters only

Done == [r |-> "ok"]
Init == /\ i \in Job.from..Job.to
        /\ k = 0 /\ tag = ""
        /\ objs = [s \in Slots |-> NoValue]
        /\ outs = [w \in Outs |-> <<>>]
        /\ hist = << [do |-> "new", s |-> 1, ty |-> FullName], [do |-> "new", s |-> 2, ty |-> FullName],
                     [do |-> "wnew", w |-> 1, pos |-> 0], [do |-> "wnew", w |-> 2, pos |-> 0] >>
        /\ exp = << Done, Done, Done, Done >>

\* ------------------------------------------------- input and output streams
\* a plan lists what successive calls of the stream do: n >= 0 pass at most n bytes,
\* -1 be interrupted, -2 fail; it repeats for ever
Plans == << <<>>, <<1>>, <<3>>, <<1, -1, 2>>, <<-1, 7>>, <<64, 1>>, <<-2>>, <<2, -2>>, <<1, -1, 1, -2>>, <<5, 1, 8, -2>>, <<0>>, <<1, 0>> >>
\* does a plan get n bytes across?  A call that passes nothing ends a stream being
\* read and is an error when writing
RECURSIVE PlanWrites(_, _, _)
PlanWrites(p, j, n) ==
    IF n <= 0 THEN TRUE
    ELSE LET a == p[((j - 1) % Len(p)) + 1] IN
         IF a \in {-2, 0} THEN FALSE ELSE IF a = -1 THEN PlanWrites(p, j + 1, n) ELSE PlanWrites(p, j + 1, n - a)
WritesOk(p, n) == p = <<>> \/ PlanWrites(p, 1, n)
\* how a reader splits its calls is its own affair, so only plans that certainly
\* fail or certainly do not are used for reading
PlanFor(b, h) ==
    LET ps == SelectSeq(Plans, LAMBDA p : \A j \in 1..Len(p) : p[j] # 0)
        ok == SelectSeq(ps, LAMBDA p : p = <<>> \/ ~(\E j \in 1..Len(p) : p[j] = -2) \/ ~PlanWrites(p, 1, Len(b)))
    IN ok[Rnd(h, Len(ok)) + 1]
Fails(p) == \E j \in 1..Len(p) : p[j] = -2

\* ------------------------------------------------------------------ calls --
\* a call: [st : the step for the implementation, ex : its outcome, o : slots after, w : output streams after]
Failed == [r |-> "err"]
Enc(s, pos) == Encode(RT, objs[s].v, pos)
AfterDec(s, r) == [objs EXCEPT ![s] = IF r.ok THEN Value(r.v) ELSE Junk0(@)]
Loose(r) == ~r.ok /\ r.err \in {"loose", "huge"}
DecEx(r, pos) == IF r.ok THEN [r |-> "ok", n |-> r.pos - pos, v |-> r.v]
                 ELSE IF Loose(r) THEN [any |-> TRUE] ELSE Failed
\* the calls possible in a state, as descriptions [c : what, s : object, w : output stream, j : variant]
C(c, s, w, j) == [c |-> c, s |-> s, w |-> w, j |-> j]
Over(n, F(_)) == [j \in 1..n |-> F(j)]
CanRead(s) == Plain \/ objs[s].ps
Als == <<1, 2, 4, 8, 16, 32, 64, 3, 5, 12>>
Chunks == <<0, 1, 2, 1000>>
FromKinds == <<"frombytes", "fromreader", "fromfile">>
Calls1(s) ==
    Over(NPool, LAMBDA j : C("load", s, 0, j))
    \o (IF CanRead(s) THEN Over(NStreams, LAMBDA j : C("read", s, 0, j)) ELSE <<>>)
    \o (IF Plain THEN Over(2 * NStreams, LAMBDA j : C("from", s, 0, j)) \o <<C("nofile", s, 0, 0)>> ELSE <<>>)
    \o (IF objs[s].has THEN <<C("dump", s, 0, 0), C("size", s, 0, 0), C("tobytes", s, 0, 0), C("towriter", s, 0, 0),
                              C("towriter", s, 0, 1), C("extern", s, 0, 0)>> \o Over(4, LAMBDA j : C("write", s, (j % 2) + 1, 0)) ELSE <<>>)
Calls2(w) == <<C("align", 0, w, 0), C("close", 0, w, 0), C("wnew", 0, w, 0)>>
\* visiting all sequences: one object, one output stream, fewer variants of the same call
CallsAll ==
    << C("load", 1, 0, 1), C("load", 1, 0, 2) >>
    \o (IF CanRead(1) THEN << C("read", 1, 0, 3), C("read", 1, 0, NStreams) >> ELSE <<>>)
    \o (IF Plain THEN << C("from", 1, 0, (k % 3) + 1), C("from", 1, 0, 2 * NStreams - 1) >> ELSE <<>>)
    \o (IF objs[1].has THEN << C("write", 1, 1, 0), C("dump", 1, 0, 0), C("tobytes", 1, 0, 0), C("extern", 1, 0, 0) >> ELSE <<>>)
    \o << C("align", 0, 1, 0) >>
Small == Job.mode = "all"
Calls == IF Small THEN CallsAll ELSE Calls1(1) \o Calls1(2) \o Calls2(1) \o Calls2(2) \o <<C("chunk", 0, 0, 0)>>

Out(st, ex) == [st |-> st, ex |-> ex, o |-> objs, w |-> outs]
\* what a call does
Perform(d) ==
    LET s == d.s w == d.w j == d.j IN
    CASE d.c = "load" -> [st |-> [do |-> "load", s |-> s, v |-> Pool(j)], ex |-> Done,
                          o |-> [objs EXCEPT ![s] = Value(Pool(j))], w |-> outs]
      [] d.c = "read" ->                    \* decoding into an object, fresh or used
           LET t == Stream(j)
               r == Decode(RT, SessPs, BytesBits(t.b), t.pos)
           IN [st |-> [do |-> "read", s |-> s, b |-> t.b, pos |-> t.pos], ex |-> DecEx(r, t.pos), o |-> AfterDec(s, r), w |-> outs]
      [] d.c = "from" ->                    \* the entry points: the object is replaced, or stays as it was
           LET kd == FromKinds[(j % 3) + 1]
               jj == ((j - 1) % NStreams) + 1
               t == IF jj <= NPool THEN BitsBytes(Encode(RT, Pool(jj), 0)) \o GenBlob(H(60 + jj), jj - 1) ELSE Stream(jj).b
               r == Decode(RT, SessPs, BytesBits(t), 0)
               p == IF kd = "fromreader" THEN PlanFor(t, H(70 + j + 100 * k)) ELSE <<>>
           IN [st |-> [do |-> kd, s |-> s, b |-> t, plan |-> p],
               ex |-> IF Fails(p) THEN Failed ELSE IF r.ok THEN [r |-> "ok", v |-> r.v] ELSE IF Loose(r) THEN [any |-> TRUE] ELSE Failed,
               o |-> [objs EXCEPT ![s] = IF Fails(p) THEN @ ELSE IF r.ok THEN Value(r.v) ELSE IF Loose(r) THEN NoValue ELSE @],
               w |-> outs]
      [] d.c = "nofile" -> Out([do |-> "fromfile", s |-> s, b |-> <<>>, missing |-> TRUE], Failed)
      [] d.c = "write" -> LET b == Enc(s, Len(outs[w])) IN
           [st |-> [do |-> "write", s |-> s, w |-> w], ex |-> [r |-> "ok", n |-> Len(b), same |-> TRUE],
            o |-> objs, w |-> [outs EXCEPT ![w] = @ \o b]]
      [] d.c = "dump" -> Out([do |-> "dump", s |-> s], [r |-> "ok", v |-> objs[s].v])
      [] d.c = "size" -> LET pos == Rnd(H(80 + k), 70) IN
           Out([do |-> "size", s |-> s, pos |-> pos], [r |-> "ok", sz |-> Len(Enc(s, pos)), same |-> TRUE])
      [] d.c = "tobytes" -> Out([do |-> "tobytes", s |-> s], [r |-> "ok", b |-> BitsBytes(Enc(s, 0))])
      [] d.c = "towriter" -> LET p == Plans[Rnd(H(90 + k + 7 * j), Len(Plans)) + 1] b == BitsBytes(Enc(s, 0)) IN
           Out([do |-> "towriter", s |-> s, plan |-> p], IF WritesOk(p, Len(b)) THEN [r |-> "ok", b |-> b] ELSE Failed)
      [] d.c = "extern" -> LET bits == Enc(s, 0) IN
           Out([do |-> "extern", s |-> s], [r |-> "ok", v |-> [n |-> BI(Len(bits)), b |-> BitsBytes(bits)]])
      [] d.c = "align" ->
           LET al == Als[Rnd(H(110 + k + w), Len(Als)) + 1]
               padded == outs[w] \o Zeros(PadTo(Len(outs[w]), al))
           IN [st |-> [do |-> "align", w |-> w, al |-> al], ex |-> [r |-> "ok", n |-> Len(padded)], o |-> objs,
               w |-> [outs EXCEPT ![w] = padded]]
      [] d.c = "close" -> [st |-> [do |-> "close", w |-> w], ex |-> [r |-> "ok", b |-> BitsBytes(outs[w])], o |-> objs,
                           w |-> [outs EXCEPT ![w] = <<>>]]
      [] d.c = "wnew" -> LET p == Rnd(H(120 + k + w), 30) IN
           [st |-> [do |-> "wnew", w |-> w, pos |-> p], ex |-> Done, o |-> objs, w |-> [outs EXCEPT ![w] = Ones(p)]]
      [] d.c = "chunk" -> LET n == Chunks[Rnd(H(130 + k), Len(Chunks)) + 1] IN Out([do |-> "chunk", n |-> n], [r |-> "ok", n |-> n])
\* a stream that is closed is replaced by a new one
Reopen(c) == IF c.st.do = "close" THEN << [do |-> "wnew", w |-> c.st.w, pos |-> 0] >> ELSE <<>>
Do(c) == /\ objs' = c.o
         /\ outs' = c.w
         /\ hist' = hist \o <<c.st>> \o Reopen(c)
         /\ exp' = exp \o <<c.ex>> \o (IF c.st.do = "close" THEN <<Done>> ELSE <<>>)
         /\ k' = k + 1
         /\ UNCHANGED i
Step == /\ k < Job.len
        /\ \E n \in (IF Small THEN 1..Len(Calls) ELSE {Rnd(H(200 + k), Len(Calls)) + 1}) :
               /\ tag' = IF Small THEN tag \o "_" \o ToString(n) ELSE tag
               /\ \E c \in {Perform(Calls[n])} : Do(c)           \* (evaluated once)
\* at the end everything is looked at once more
Final ==
    LET ws == [w \in Outs |-> [do |-> "close", w |-> w]]
        we == [w \in Outs |-> [r |-> "ok", b |-> BitsBytes(outs[w])]]
        vs == SelectSeq([s \in Slots |-> s], LAMBDA s : objs[s].has)
    IN [st |-> ws \o [j \in 1..Len(vs) |-> [do |-> "tobytes", s |-> vs[j]]],
        ex |-> we \o [j \in 1..Len(vs) |-> [r |-> "ok", b |-> BitsBytes(Enc(vs[j], 0))]]]
Case == [i |-> i, root |-> FullName,
         ops |-> << [op |-> "session", steps |-> hist \o Final.st] >>,
         exp |-> << exp \o Final.ex >>]
FileName == ToString(i) \o tag
Emit == /\ k = Job.len /\ k' = k + 1
        /\ CSVWrite("%1$s", <<ToJson(Case)>>, Job.out \o FileName)
        /\ hist' = <<>> /\ exp' = <<>> /\ objs' = [s \in Slots |-> NoValue] /\ outs' = [w \in Outs |-> <<>>]
        /\ UNCHANGED <<i, tag>>
Next == Step \/ Emit
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- invariants ----
\* whatever an object went through, writing it and reading it back gives that object
Lossless == k = Job.len => \A s \in Slots : objs[s].has =>
    LET b == Enc(s, 0) r == Decode(RT, SessPs, b, 0) IN r.ok /\ r.v = Canon(RT, objs[s].v) /\ r.pos = Len(b)
\* what is in the output stream is the concatenation of what the calls put there
Bits01 == \A w \in Outs : \A j \in 1..Len(outs[w]) : outs[w][j] \in {0, 1}
=============================================================================
