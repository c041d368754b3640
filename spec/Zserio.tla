------------------------------- MODULE Zserio -------------------------------
(***************************************************************************)
(* The zserio language and its wire format, as an interpreter of schemas.  *)
(*                                                                         *)
(* Schema (a CONSTANT) is the abstract syntax of a set of packages as      *)
(* written by tools/zs.py:                                                 *)
(*  [pkgs |-> << [name, imports |-> << [pkg |-> index, sym |-> "" or name] >>, *)
(*               decls |-> [name |-> declaration], order |-> << names >>] >>] *)
(* A declaration has a field k in                                          *)
(*  "struct" "choice" "union" "enum" "mask" "const" "subtype" "inst".      *)
(* A type reference is [k |-> "prim", t] / [k |-> "dyn", sg, w] (bit<expr>)*)
(* / [k |-> "ref", n, targs, args].                                        *)
(*                                                                         *)
(* Values of compound types are records from field names to values, with   *)
(*   "$"  the record of the parameters the object was given                *)
(*   "$t" the index (from 1) of the selected member of a union             *)
(* an optional field holds <<>> or <<value>>, an array a sequence, an enum *)
(* the index (from 1) of its item, a bitmask its number.                   *)
(***************************************************************************)
EXTENDS Delta, Float

CONSTANT Schema

Pkgs == Schema.pkgs
Decl(r) == Pkgs[r[1]].decls[r[2]]                       \* r = <<package index, name>>
NoMap == <<>>
Has(f, x) == x \in DOMAIN f

\* ------------------------------------------------------ names (C14) -------
\* Where a package-level name used in package p is declared.  Declarations of
\* the package itself come first, then the imports, nearest first; an import of
\* a single symbol makes only that symbol visible.
RECURSIVE LookupIn(_, _, _)
LookupIn(level, seen, n) ==
    \* level: sequence of imports to look at
    IF level = <<>> THEN <<0, n>>
    ELSE LET hits == SelectSeq(level, LAMBDA im : (im.sym = "" \/ im.sym = n)
                                                  /\ Has(Pkgs[im.pkg].decls, n))
         IN IF hits # <<>> THEN <<hits[1].pkg, n>>
            ELSE LookupIn(FlattenSeq([i \in 1..Len(level) |->
                            IF level[i].pkg \in seen THEN <<>>
                            ELSE Pkgs[level[i].pkg].imports]),
                          seen \cup {level[i].pkg : i \in 1..Len(level)}, n)
Lookup(p, n) == IF Has(Pkgs[p].decls, n) THEN <<p, n>>
                ELSE LookupIn(Pkgs[p].imports, {p}, n)

\* ------------------------------------------------------ types -------------
\* A scope says in which package names are looked up and what the template
\* parameters stand for.  A resolved type is one of
\*   [k |-> "prim", t]
\*   [k |-> "dyn", sg, w (expression), sc (its scope)]
\*   [k |-> "enum" | "mask", r]
\*   [k |-> "struct" | "choice" | "union", r, tm (template map), args]
\* where args (expressions) belong to the scope of the type's user.
Scope(p, tm) == [p |-> p, tm |-> tm]

RECURSIVE ResType(_, _)
ResType(tr, sc) ==
    CASE tr.k = "prim" -> tr
      [] tr.k = "dyn" -> [k |-> "dyn", sg |-> tr.sg, w |-> tr.w, sc |-> sc]
      [] tr.k = "ref" ->
           IF tr.q = 0 /\ Has(sc.tm, tr.n)
           THEN LET t == sc.tm[tr.n] IN
                IF tr.args = <<>> THEN t ELSE [t EXCEPT !.args = tr.args]
           ELSE LET r == IF tr.q # 0 THEN <<tr.q, tr.n>> ELSE Lookup(sc.p, tr.n)
                    d == Decl(r)
                    targs == [i \in 1..Len(tr.targs) |-> ResType(tr.targs[i], sc)]
                IN CASE d.k \in {"subtype", "inst"} ->
                          LET t == ResType(d.type, Scope(r[1], NoMap)) IN
                          IF tr.args = <<>> THEN t ELSE [t EXCEPT !.args = tr.args]
                     [] d.k \in {"enum", "mask"} -> [k |-> d.k, r |-> r]
                     [] OTHER -> [k |-> d.k, r |-> r,
                                  tm |-> [x \in {d.tparams[i] : i \in 1..Len(d.tparams)} |->
                                            targs[CHOOSE i \in 1..Len(d.tparams) : d.tparams[i] = x]],
                                  args |-> tr.args]

IsComp(rt) == rt.k \in {"struct", "choice", "union"}
CompScope(rt) == Scope(rt.r[1], rt.tm)
\* all fields of a compound type, in declaration order
CompFields(rt) ==
    LET d == Decl(rt.r) IN
    IF d.k # "choice" THEN d.fields
    ELSE FlattenSeq([i \in 1..Len(d.cases) |-> d.cases[i].field])
         \o (IF d.default = <<>> THEN <<>> ELSE d.default[1])
FieldIdx(fs, n) == CHOOSE i \in 1..Len(fs) : fs[i].name = n
HasName(fs, n) == \E i \in 1..Len(fs) : fs[i].name = n
\* a resolved field: [f |-> syntax, rt |-> element type]
FieldType(rt, f) == ResType(f.type, CompScope(rt))

\* ------------------------------------------------------ values ------------
\* results of expressions
TUndef == [t |-> "undef"]
Undef(x) == x.t = "undef"
TInt(v) == [t |-> "int", v |-> v]
TFlo(x) == IF FIsUndef(x) THEN TUndef ELSE [t |-> "flo", v |-> x]
FloatExp == [f16 |-> 8, f32 |-> 8, f64 |-> 11]       \* bits of the exponent and the mantissa
FloatMant == [f16 |-> 23, f32 |-> 23, f64 |-> 52]    \* (f16 values are kept as f32)
IsFloat(rt) == rt.k = "prim" /\ rt.t.p \in {"f16", "f32", "f64"}
FloatPattern(rt, x) == FPattern(IF x.t = "int" THEN FOfInt(x.v) ELSE x.v, FloatExp[rt.t.p], FloatMant[rt.t.p])
TBool(b) == [t |-> "bool", v |-> b]

\* Memo(r, v) is v, the value of declaration r.  TLC keeps it, so that it is computed
\* only once: registers 100 + p hold the values known for package p.
ASSUME \A p \in 1..Len(Pkgs) : TLCSet(100 + p, NoMap)
Memo(r, v) == LET known == TLCGet(100 + r[1]) IN
              IF Has(known, r[2]) THEN known[r[2]]
              ELSE LET w == TLCEval(v) IN
                   IF TLCSet(100 + r[1], (r[2] :> w) @@ TLCGet(100 + r[1])) THEN w ELSE w

RECURSIVE EnumVals(_), MaskVals(_), ConstVal(_), EvalE(_, _), Call(_, _, _), NameVal(_, _), EnumValsFrom(_, _, _, _), MaskValsFrom(_, _, _, _)

\* an expression environment: scope, object type/value (ot.k = "none" outside an
\* object) and the element index
Env(sc, ot, o, idx) == [sc |-> sc, ot |-> ot, o |-> o, idx |-> idx]
NoObj == [k |-> "none"]
PkgEnv(p) == Env(Scope(p, NoMap), NoObj, NoMap, -1)
ObjEnv(rt, o, idx) == Env(CompScope(rt), rt, o, idx)

EnumValsFrom(d, env, i, next) ==
    IF i > Len(d.items) THEN <<>>
    ELSE LET v == IF d.items[i].val = <<>> THEN next ELSE EvalE(d.items[i].val[1], env).v
         IN <<v>> \o EnumValsFrom(d, env, i + 1, BAdd(v, BOne))
EnumVals(r) == Memo(r, EnumValsFrom(Decl(r), PkgEnv(r[1]), 1, BZero))

MaskValsFrom(d, env, i, next) ==
    IF i > Len(d.items) THEN <<>>
    ELSE LET v == IF d.items[i].val = <<>> THEN next ELSE EvalE(d.items[i].val[1], env).v
         IN <<v>> \o MaskValsFrom(d, env, i + 1, BPow2(BBitLen(v)))
MaskVals(r) == Memo(r, MaskValsFrom(Decl(r), PkgEnv(r[1]), 1, BOne))

ItemIdx(d, n) == CHOOSE i \in 1..Len(d.items) : d.items[i].name = n
EnumBase(r) == ResType(Decl(r).base, Scope(r[1], NoMap)).t
EnumNum(r, i) == EnumVals(r)[i]

\* the typed value of a stored value
Typed(rt, v) ==
    CASE rt.k = "prim" -> IF IsNumPrim(rt.t) THEN TInt(v)
                          ELSE IF rt.t.p = "bool" THEN TBool(v)
                          ELSE IF rt.t.p = "str" THEN [t |-> "str", v |-> v]
                          ELSE IF IsFloat(rt) THEN TFlo(FOfPattern(v, FloatExp[rt.t.p], FloatMant[rt.t.p]))
                          ELSE [t |-> "blob", v |-> v]
      [] rt.k = "dyn" -> TInt(v)
      [] rt.k = "enum" -> [t |-> "enum", r |-> rt.r, v |-> EnumNum(rt.r, v)]
      [] rt.k = "mask" -> [t |-> "mask", r |-> rt.r, v |-> v]
      [] OTHER -> [t |-> "obj", rt |-> rt, v |-> v]
RECURSIVE Selected(_, _, _)
FieldVal(rt, f, o) ==
    IF ~Has(o, f.name) THEN TUndef
    ELSE LET raw == o[f.name] IN
         IF f.opt /\ raw = <<>> THEN TUndef
         ELSE IF ~Selected(rt, f, o) THEN TUndef          \* the field is not there
         ELSE LET x == IF f.opt THEN raw[1] ELSE raw IN
              IF f.arr # <<>> THEN [t |-> "arr", rt |-> FieldType(rt, f), v |-> x]
              ELSE Typed(FieldType(rt, f), x)

\* ------------------------------------------------------ expressions (C13) -
\* A value outside what 64-bit arithmetic can hold is undefined: schemas that
\* need it are outside the language's portable part.
ArithOk(v) == IF v[1] = 0 THEN BBitLen(v) <= 63 ELSE BLe(BNeg(BPow2(63)), v)
Arith(v) == IF ArithOk(v) THEN TInt(v) ELSE TUndef

BinNum(o, a, b) ==
    CASE o = "+" -> Arith(BAdd(a, b))
      [] o = "-" -> Arith(BSub(a, b))
      [] o = "*" -> Arith(BMul(a, b))
      [] o = "/" -> IF BIsZero(b) THEN TUndef ELSE Arith(BDiv(a, b))
      [] o = "%" -> IF BIsZero(b) THEN TUndef ELSE Arith(BMod(a, b))
      [] o = "<<" -> IF BIsNeg(b) \/ BLt(BI(62), b) THEN TUndef ELSE Arith(BShl(a, BInt(b)))
      [] o = ">>" -> IF BIsNeg(b) \/ BLt(BI(62), b) THEN TUndef ELSE Arith(BShr(a, BInt(b)))
      [] o = "&" -> Arith(BAnd(a, b))
      [] o = "|" -> Arith(BOr(a, b))
      [] o = "^" -> Arith(BXor(a, b))
      [] o = "<" -> TBool(BLt(a, b))
      [] o = "<=" -> TBool(BLe(a, b))
      [] o = ">" -> TBool(BLt(b, a))
      [] o = ">=" -> TBool(BLe(b, a))
      [] o = "==" -> TBool(a = b)
      [] o = "!=" -> TBool(a # b)
AsFloat(a) == IF a.t = "int" THEN FOfInt(a.v) ELSE a.v
BinFlo(o, a, b) ==           \* an integer beside a float becomes a float
    LET c == FCmp(a, b)
        rel(x) == IF c = -2 THEN TUndef ELSE TBool(x)
    IN IF FIsUndef(a) \/ FIsUndef(b) THEN TUndef
       ELSE CASE o = "+" -> TFlo(FAdd(a, b))
              [] o = "-" -> TFlo(FSub(a, b))
              [] o = "*" -> TFlo(FMul(a, b))
              [] o = "/" -> TFlo(FDiv(a, b))
              [] o = "<" -> rel(c = -1)
              [] o = "<=" -> rel(c # 1)
              [] o = ">" -> rel(c = 1)
              [] o = ">=" -> rel(c # -1)
              [] o = "==" -> rel(c = 0)
              [] o = "!=" -> rel(c # 0)
BinMask(o, x, y) ==          \* bitwise operators keep the bitmask type
    CASE o = "&" -> [x EXCEPT !.v = BAnd(x.v, y.v)]
      [] o = "|" -> [x EXCEPT !.v = BOr(x.v, y.v)]
      [] o = "^" -> [x EXCEPT !.v = BXor(x.v, y.v)]
      [] OTHER -> BinNum(o, x.v, y.v)

\* what a bare name denotes: fields, then parameters, then package symbols
NameVal(n, env) ==
    IF env.ot.k # "none" /\ HasName(CompFields(env.ot), n)
    THEN LET fs == CompFields(env.ot) IN FieldVal(env.ot, fs[FieldIdx(fs, n)], env.o)
    ELSE IF env.ot.k # "none" /\ HasName(Decl(env.ot.r).params, n)
    THEN LET ps == Decl(env.ot.r).params
             q == ps[FieldIdx(ps, n)]
         IN Typed(ResType(q.type, CompScope(env.ot)), env.o["$"][n])
    ELSE LET r == Lookup(env.sc.p, n) IN
         IF r[1] = 0 THEN TUndef
         ELSE IF Decl(r).k = "const" THEN Memo(r, ConstVal(r)) ELSE TUndef

\* a value becomes one of the declared type
Declared(t, v) ==
    IF ~Undef(v) /\ IsFloat(t) /\ v.t \in {"int", "flo"}
    THEN LET p == FloatPattern(t, v) IN IF p = <<>> THEN TUndef ELSE Typed(t, p[1])
    ELSE v
ConstVal(r) == Declared(ResType(Decl(r).type, Scope(r[1], NoMap)), EvalE(Decl(r).val, PkgEnv(r[1])))

\* does the expression name a type whose items can be selected with a dot?
ItemType(e, env) ==
    IF e.op # "id" THEN NoObj
    ELSE IF Has(env.sc.tm, e.n) THEN env.sc.tm[e.n]
    ELSE IF env.ot.k # "none" /\ (HasName(CompFields(env.ot), e.n) \/ HasName(Decl(env.ot.r).params, e.n)) THEN NoObj
    ELSE LET r == Lookup(env.sc.p, e.n) IN
         IF r[1] = 0 THEN NoObj
         ELSE IF Decl(r).k \in {"enum", "mask"} THEN [k |-> Decl(r).k, r |-> r]
         ELSE IF Decl(r).k = "subtype" THEN ResType(Decl(r).type, Scope(r[1], NoMap))
         ELSE NoObj
ItemVal(it, n) ==
    LET d == Decl(it.r) IN
    IF it.k = "enum" THEN [t |-> "enum", r |-> it.r, v |-> EnumVals(it.r)[ItemIdx(d, n)]]
    ELSE [t |-> "mask", r |-> it.r, v |-> MaskVals(it.r)[ItemIdx(d, n)]]

Call(ot, o, n) ==            \* function n of object o
    LET d == Decl(ot.r)
        fn == d.funcs[FieldIdx(d.funcs, n)]
        v == EvalE(fn.body, ObjEnv(ot, o, -1))
        t == ResType(fn.type, CompScope(ot))
    IN \* the result has to be a value of the function's type
       IF ~Undef(v) /\ v.t = "int" /\ t.k = "prim" THEN (IF IsNumPrim(t.t) /\ PrimOk(t.t, v.v) THEN v ELSE TUndef)
       ELSE Declared(t, v)

EvalE(e, env) ==
    CASE e.op = "int" -> TInt(e.v)
      [] e.op = "bool" -> TBool(e.v)
      [] e.op = "str" -> [t |-> "str", v |-> e.v]
      [] e.op = "flt" -> IF e.m = <<>> THEN TUndef ELSE TFlo(F64(0, e.m[1], e.e, FALSE))
      [] e.op = "idx" -> IF env.idx < 0 THEN TUndef ELSE TInt(BI(env.idx))
      [] e.op = "id" -> NameVal(e.n, env)
      [] e.op = "dot" ->
           LET it == ItemType(e.a, env) IN
           IF it.k \in {"enum", "mask"} THEN ItemVal(it, e.n)
           ELSE LET a == EvalE(e.a, env) IN
                IF a.t # "obj" THEN TUndef
                ELSE LET fs == CompFields(a.rt) IN
                     IF HasName(fs, e.n) THEN FieldVal(a.rt, fs[FieldIdx(fs, e.n)], a.v)
                     ELSE LET ps == Decl(a.rt.r).params
                              q == ps[FieldIdx(ps, e.n)]
                          IN Typed(ResType(q.type, CompScope(a.rt)), a.v["$"][e.n])
      [] e.op = "at" ->
           LET a == EvalE(e.a, env)
               i == EvalE(e.i, env)
           IN IF Undef(a) \/ Undef(i) \/ i.t # "int" THEN TUndef
              ELSE IF BIsNeg(i.v) \/ ~BFitsInt(i.v) \/ BInt(i.v) >= Len(a.v) THEN TUndef
              ELSE Typed(a.rt, a.v[BInt(i.v) + 1])
      [] e.op = "call" ->
           IF e.a.op = "id" THEN Call(env.ot, env.o, e.a.n)
           ELSE LET a == EvalE(e.a.a, env) IN
                IF a.t # "obj" THEN TUndef ELSE Call(a.rt, a.v, e.a.n)
      [] e.op = "lengthof" -> LET a == EvalE(e.a, env) IN
                              IF Undef(a) THEN TUndef ELSE TInt(BI(Len(a.v)))
      [] e.op = "valueof" -> LET a == EvalE(e.a, env) IN
                             IF Undef(a) THEN TUndef ELSE TInt(a.v)
      [] e.op = "numbits" -> LET a == EvalE(e.a, env) IN
                             IF Undef(a) \/ BIsNeg(a.v) THEN TUndef ELSE TInt(BI(BNumBits(a.v)))
      [] e.op = "isset" -> LET a == EvalE(e.a, env)
                               b == EvalE(e.b, env)
                           IN IF Undef(a) \/ Undef(b) THEN TUndef
                              ELSE TBool(BAnd(a.v, b.v) # BZero)
      [] e.op = "un" ->
           LET a == EvalE(e.a, env) IN
           IF Undef(a) THEN TUndef
           ELSE (CASE e.o = "-" /\ a.t = "flo" -> TFlo(FNeg(a.v))
                  [] e.o = "-" -> Arith(BNeg(a.v))
                  [] e.o = "+" -> a
                  [] e.o = "!" -> TBool(~a.v)
                  [] e.o = "~" -> IF a.t = "mask"
                                  THEN [a EXCEPT !.v = LET t == EnumBase(a.r) IN BWrapU(BNot(a.v), t.n)]
                                  ELSE TInt(BNot(a.v)))
      [] e.op = "cond" ->
           LET c == EvalE(e.c, env) IN
           IF Undef(c) THEN TUndef
           ELSE LET x == EvalE(IF c.v THEN e.a ELSE e.b, env) IN
                \* of an integer and a float alternative, the result is a float
                IF x.t = "int" /\ EvalE(IF c.v THEN e.b ELSE e.a, env).t = "flo" THEN TFlo(FOfInt(x.v)) ELSE x
      [] e.op = "bin" ->
           LET a == EvalE(e.a, env) IN
           IF Undef(a) THEN TUndef
           ELSE IF e.o = "&&" THEN (IF ~a.v THEN TBool(FALSE) ELSE EvalE(e.b, env))
           ELSE IF e.o = "||" THEN (IF a.v THEN TBool(TRUE) ELSE EvalE(e.b, env))
           ELSE LET b == EvalE(e.b, env) IN
                IF Undef(b) THEN TUndef
                ELSE IF a.t \in {"bool", "str"} THEN
                     (IF e.o = "==" THEN TBool(a.v = b.v) ELSE IF e.o = "!=" THEN TBool(a.v # b.v) 
                      ELSE IF a.t = "str" /\ e.o = "+" THEN [t |-> "str", v |-> a.v \o b.v] ELSE TUndef)
                ELSE IF a.t = "mask" THEN BinMask(e.o, a, b)
                ELSE IF a.t = "flo" \/ b.t = "flo" THEN BinFlo(e.o, AsFloat(a), AsFloat(b))
                ELSE BinNum(e.o, a.v, b.v)

\* convert a typed value to a stored value of type rt (arguments to parameters); integers are
\* kept in the smallest machine integer that has room for the values of the parameter's type
Machine(t) == LET w == CASE t.p \in {"uint", "sint"} -> t.n
                         [] t.p \in {"varu", "vars"} -> IF t.m = 2 THEN 16 ELSE IF t.m = 4 THEN 32 ELSE 64
                         [] OTHER -> 32
              IN CHOOSE n \in {8, 16, 32, 64} : w <= n /\ \A m \in {8, 16, 32, 64} : w <= m => n <= m
Store(rt, x) ==
    CASE rt.k = "prim" /\ IsNumPrim(rt.t) /\ x.t = "int" ->
             IF IsSignedPrim(rt.t) THEN BWrapS(x.v, Machine(rt.t)) ELSE BWrapU(x.v, Machine(rt.t))
      [] IsFloat(rt) -> FloatPattern(rt, x)[1]
      [] rt.k = "enum" -> CHOOSE i \in 1..Len(Decl(rt.r).items) : EnumNum(rt.r, i) = x.v
      [] OTHER -> x.v
Storable(rt, x) == IsFloat(rt) => x.t \in {"int", "flo"} /\ FloatPattern(rt, x) # <<>>
\* the parameters of an object of type rt used in environment env
ParamRec(rt, env) ==
    LET ps == Decl(rt.r).params IN
    [n \in {ps[i].name : i \in 1..Len(ps)} |->
        LET i == FieldIdx(ps, n)
            x == EvalE(rt.args[i], env)
        IN IF Undef(x) \/ ~Storable(ResType(ps[i].type, CompScope(rt)), x) THEN BZero ELSE Store(ResType(ps[i].type, CompScope(rt)), x)]
ParamsDefined(rt, env) ==
    LET ps == Decl(rt.r).params IN
    \A i \in 1..Len(rt.args) : LET x == EvalE(rt.args[i], env) IN ~Undef(x) /\ Storable(ResType(ps[i].type, CompScope(rt)), x)

DynPrim(rt, env) == LET w == EvalE(rt.w, [env EXCEPT !.sc = IF rt.sc.p = env.sc.p THEN env.sc ELSE rt.sc]) IN
                    \* width 0: there is no such type
                    [p |-> IF rt.sg THEN "sint" ELSE "uint",
                     n |-> IF Undef(w) \/ BIsNeg(w.v) \/ BLt(BI(64), w.v) THEN 0 ELSE BInt(w.v)]
\* the built-in type a non-compound element type stands for
LeafPrim(rt, env) == CASE rt.k = "prim" -> rt.t
                       [] rt.k = "dyn" -> DynPrim(rt, env)
                       [] OTHER -> EnumBase(rt.r)
LeafNum(rt, v) == IF rt.k = "enum" THEN EnumNum(rt.r, v) ELSE v

\* ------------------------------------------------------ structure ---------
\* is the optional/conditional field present in o?
CondHolds(rt, f, o) == f.cond = <<>> \/ LET r == EvalE(f.cond[1], ObjEnv(rt, o, -1)) IN ~Undef(r) /\ r.v
\* the alternative a choice object selects: <<>> or <<field>>
CaseMatches(rt, c, sel, o) ==
    \E i \in 1..Len(c.labels) :
        LET l == c.labels[i]
            x == IF sel.t \in {"enum", "mask"} /\ l.op = "id" /\ \E j \in 1..Len(Decl(sel.r).items) : Decl(sel.r).items[j].name = l.n
                 THEN ItemVal([k |-> sel.t, r |-> sel.r], l.n)
                 ELSE EvalE(l, ObjEnv(rt, o, -1))
        IN x.v = sel.v
ChoiceSel(rt, o) ==
    LET d == Decl(rt.r)
        sel == EvalE(d.sel, ObjEnv(rt, o, -1))
        hits == SelectSeq(d.cases, LAMBDA c : CaseMatches(rt, c, sel, o))
    IN IF Undef(sel) THEN [ok |-> FALSE, f |-> <<>>, why |-> "loose"]
       ELSE IF hits # <<>> THEN [ok |-> TRUE, f |-> hits[1].field]
       ELSE IF d.default # <<>> THEN [ok |-> TRUE, f |-> d.default[1]]
       ELSE [ok |-> FALSE, f |-> <<>>, why |-> "case"]
\* does object o have field f?
Selected(rt, f, o) == CASE rt.k = "struct" -> CondHolds(rt, f, o)
                        [] rt.k = "choice" -> LET s == ChoiceSel(rt, o) IN s.f # <<>> /\ s.f[1].name = f.name
                        [] OTHER -> CompFields(rt)[o["$t"]].name = f.name
ArrLen(rt, f, o) ==           \* declared length of an array field
    EvalE(f.arr[1].len[1], ObjEnv(rt, o, -1))

\* Do all expressions that matter for this object have a value?  Only such objects are written.
RECURSIVE DefinedComp(_, _), DefinedElem(_, _, _)
DefinedElem(rt, v, env) ==
    IF IsComp(rt) THEN ParamsDefined(rt, env) /\ DefinedComp(rt, v)
    ELSE rt.k # "dyn" \/ DynPrim(rt, env).n > 0
DefinedField(rt, f, o) ==
    /\ f.cond # <<>> => ~Undef(EvalE(f.cond[1], ObjEnv(rt, o, -1)))
    /\ CondHolds(rt, f, o) /\ (f.opt => o[f.name] # <<>>) =>
        LET ft == FieldType(rt, f)
            x == IF f.opt THEN o[f.name][1] ELSE o[f.name]
        IN IF f.arr = <<>> THEN DefinedElem(ft, x, ObjEnv(rt, o, -1))
           ELSE /\ f.arr[1].len # <<>> => LET n == ArrLen(rt, f, o) IN ~Undef(n) /\ n.v = BI(Len(x))
                /\ \A i \in 1..Len(x) : DefinedElem(ft, x[i], ObjEnv(rt, o, i - 1))
DefinedComp(rt, o) ==
    CASE rt.k = "struct" -> \A i \in 1..Len(Decl(rt.r).fields) : DefinedField(rt, Decl(rt.r).fields[i], o)
      [] rt.k = "choice" -> LET s == ChoiceSel(rt, o) IN s.ok /\ (s.f # <<>> => DefinedField(rt, s.f[1], o))
      [] OTHER -> DefinedField(rt, Decl(rt.r).fields[o["$t"]], o)

RECURSIVE Packable(_)
\* do elements of this type have packing contexts?
LeafPackable(rt) == IF rt.k = "prim" THEN IsNumPrim(rt.t) ELSE TRUE
Packable(rt) == IF IsComp(rt) THEN TRUE ELSE LeafPackable(rt)

\* ------------------------------------------------------ encoding ----------
\* An encoder returns [b |-> bits, cs |-> contexts].  pk: inside a packed array,
\* contexts are addressed by path (a string).
TagPrim == [p |-> "varsize"]
Cx(cs, path) == IF Has(cs, path) THEN cs[path] ELSE CtxNew
R(b, cs) == [b |-> b, cs |-> cs]

RECURSIVE EncElem(_, _, _, _, _, _, _), EncComp(_, _, _, _, _, _), EncFields(_, _, _, _, _, _, _),
          EncField(_, _, _, _, _, _, _), EncArr(_, _, _, _, _, _), EncArrFrom(_, _, _, _, _, _, _, _, _),
          InitElem(_, _, _, _, _), InitFields(_, _, _, _, _, _), InitArr(_, _, _, _, _)

\* one value of element type rt; env is the environment of the owner
EncElem(rt, v, env, pos, pk, cs, path) ==
    IF IsComp(rt) THEN EncComp(rt, v, pos, pk, cs, path)
    ELSE LET t == LeafPrim(rt, env)
             x == LeafNum(rt, v)
         IN IF pk /\ LeafPackable(rt)
            THEN LET w == CtxWrite(Cx(cs, path), t, x) IN R(w[1], (path :> w[2]) @@ cs)
            ELSE R(PrimEnc(t, x), cs)

EncComp(rt, v, pos, pk, cs, path) ==
    CASE rt.k = "struct" -> EncFields(rt, v, 1, pos, pk, cs, path)
      [] rt.k = "choice" -> LET s == ChoiceSel(rt, v) IN
                            IF s.f = <<>> THEN R(<<>>, cs)
                            ELSE EncField(rt, s.f[1], v, pos, pk, cs, path)
      [] rt.k = "union" ->
           LET f == Decl(rt.r).fields[v["$t"]]
               tag == BI(v["$t"] - 1)
               tpath == path \o "/$t"
               hd == IF pk THEN LET w == CtxWrite(Cx(cs, tpath), TagPrim, tag)
                                IN R(w[1], (tpath :> w[2]) @@ cs)
                     ELSE R(PrimEnc(TagPrim, tag), cs)
               body == EncField(rt, f, v, pos + Len(hd.b), pk, hd.cs, path)
           IN R(hd.b \o body.b, body.cs)

EncFields(rt, v, i, pos, pk, cs, path) ==
    LET fs == Decl(rt.r).fields IN
    IF i > Len(fs) THEN R(<<>>, cs)
    ELSE LET one == EncField(rt, fs[i], v, pos, pk, cs, path)
             rest == EncFields(rt, v, i + 1, pos + Len(one.b), pk, one.cs, path)
         IN R(one.b \o rest.b, rest.cs)

\* Where an optional field is aligned, or addressed by an offset, the repository's own tests
\* prescribe that the presence bit is what gets aligned (the reference implementation aligns the
\* data behind it, see the known findings).  Ideal.cfg overrides this to FALSE.
AlignFirst == TRUE
\* alignment that a field's data is subject to
FieldPad(f, pos) ==
    LET a == IF f.align = 0 THEN 0 ELSE PadTo(pos, f.align)
        o == IF f.off = <<>> \/ f.offidx THEN 0 ELSE PadTo(pos + a, 8)
    IN a + o

EncField(rt, f, v, pos, pk, cs, path) ==
    IF ~CondHolds(rt, f, v) THEN R(<<>>, cs)
    ELSE LET pad1 == IF f.opt /\ AlignFirst THEN Zeros(FieldPad(f, pos)) ELSE <<>> IN
    IF f.opt /\ v[f.name] = <<>> THEN R(pad1 \o <<0>>, cs)
    ELSE LET pre == pad1 \o (IF f.opt THEN <<1>> ELSE <<>>)
             pad == IF f.opt /\ AlignFirst THEN <<>> ELSE Zeros(FieldPad(f, pos + Len(pre)))
             p == pos + Len(pre) + Len(pad)
             x == IF f.opt THEN v[f.name][1] ELSE v[f.name]
             ft == FieldType(rt, f)
             body == IF f.arr # <<>> THEN R(EncArr(rt, f, x, v, p, pk).b, cs)
                     ELSE EncElem(ft, x, ObjEnv(rt, v, -1), p, pk /\ ~f.isoff, cs, path \o "/" \o f.name)
         IN R(pre \o pad \o body.b, body.cs)

\* an array: length header unless its length is declared, then the elements.  It
\* is packed if declared so or inside a packed element, and if the element type
\* has anything to pack.  Its contexts are its own.  Fields that hold offsets (f.isoff) are never packed.
EncArr(rt, f, xs, o, pos, pk) ==
    LET ft == FieldType(rt, f)
        hd == IF f.arr[1].len # <<>> THEN <<>> ELSE SizeEnc(BI(Len(xs)))
        apk == (pk \/ f.arr[1].packed) /\ Packable(ft) /\ ~f.isoff
        cs0 == IF apk THEN InitArr(rt, ft, xs, o, 1) ELSE NoMap
        r == EncArrFrom(rt, f, ft, xs, o, 1, pos + Len(hd), apk, cs0)
    IN R(hd \o r, NoMap)
\* returns bits only
EncArrFrom(rt, f, ft, xs, o, i, pos, apk, cs) ==
    IF i > Len(xs) THEN <<>>
    ELSE LET pad == IF f.offidx THEN Zeros(PadTo(pos, 8)) ELSE <<>>
             e == EncElem(ft, xs[i], ObjEnv(rt, o, i - 1), pos + Len(pad), apk, cs, "")
         IN pad \o e.b \o EncArrFrom(rt, f, ft, xs, o, i + 1, pos + Len(pad) + Len(e.b), apk, e.cs)

\* feeding the contexts
InitElem(rt, v, env, cs, path) ==
    IF ~IsComp(rt)
    THEN IF LeafPackable(rt)
         THEN (path :> CtxInit(Cx(cs, path), LeafPrim(rt, env), LeafNum(rt, v))) @@ cs ELSE cs
    ELSE CASE rt.k = "struct" -> InitFields(rt, v, Decl(rt.r).fields, 1, cs, path)
           [] rt.k = "choice" -> InitFields(rt, v, ChoiceSel(rt, v).f, 1, cs, path)
           [] rt.k = "union" ->
                LET tpath == path \o "/$t" IN
                InitFields(rt, v, <<Decl(rt.r).fields[v["$t"]]>>, 1,
                           (tpath :> CtxInit(Cx(cs, tpath), TagPrim, BI(v["$t"] - 1))) @@ cs, path)
InitFields(rt, v, fs, i, cs, path) ==
    IF i > Len(fs) THEN cs
    ELSE LET f == fs[i]
             skip == ~CondHolds(rt, f, v) \/ (f.opt /\ v[f.name] = <<>>) \/ f.arr # <<>> \/ f.isoff
             x == IF f.opt THEN v[f.name][1] ELSE v[f.name]
         IN InitFields(rt, v, fs, i + 1,
                IF skip THEN cs
                ELSE InitElem(FieldType(rt, f), x, ObjEnv(rt, v, -1), cs, path \o "/" \o f.name), path)
InitArr(rt, ft, xs, o, i) ==
    IF i > Len(xs) THEN NoMap
    ELSE FoldLeft(LAMBDA cs, j : InitElem(ft, xs[j], ObjEnv(rt, o, j - 1), cs, ""),
                  NoMap, [j \in 1..Len(xs) |-> j])

\* the encoding of a top-level object at bit position pos
Encode(rt, v, pos) == EncComp(rt, v, pos, FALSE, NoMap, "").b
BitSize(rt, v, pos) == Len(Encode(rt, v, pos))

\* ------------------------------------------------------ decoding ----------
\* A decoder returns [ok, v, pos, cs] or Fail(why).  "why" is one of eof, size,
\* utf8, enum, tag, case; or "loose" (the format gives the bits no meaning) or
\* "huge" (more than MAXEMPTY elements that occupy no bits): any outcome that
\* does not crash is acceptable.
MAXEMPTY == 400
D(v, pos, cs) == [ok |-> TRUE, v |-> v, pos |-> pos, cs |-> cs]

RECURSIVE DecElem(_, _, _, _, _, _, _), DecComp(_, _, _, _, _, _, _), DecFields(_, _, _, _, _, _, _, _),
          DecField(_, _, _, _, _, _, _, _), DecArr(_, _, _, _, _, _), DecArrFrom(_, _, _, _, _, _, _, _, _, _, _)

DecLeaf(rt, x) ==
    IF rt.k # "enum" THEN Ok(x, 0)
    ELSE LET hits == {i \in 1..Len(Decl(rt.r).items) : EnumNum(rt.r, i) = x} IN
         IF hits = {} THEN Fail("enum") ELSE Ok(CHOOSE i \in hits : TRUE, 0)

\* the value of a field that takes no part in the encoding
Inactive == [any |-> TRUE]

DecElem(rt, env, b, pos, pk, cs, path) ==
    IF IsComp(rt) THEN
        (IF ~ParamsDefined(rt, env) THEN Fail("loose")
         ELSE DecComp(rt, ParamRec(rt, env), b, pos, pk, cs, path))
    ELSE LET t == LeafPrim(rt, env) IN
         IF t.p \in {"uint", "sint"} /\ t.n \notin 1..64 THEN Fail("loose")
         ELSE IF pk /\ LeafPackable(rt)
         THEN LET r == CtxRead(Cx(cs, path), t, b, pos) IN
              IF ~r.ok THEN r
              ELSE LET y == DecLeaf(rt, r.v) IN
                   IF ~y.ok THEN y ELSE D(y.v, r.pos, (path :> r.c) @@ cs)
         ELSE LET r == PrimDec(t, b, pos) IN
              IF ~r.ok THEN r
              ELSE LET y == DecLeaf(rt, r.v) IN
                   IF ~y.ok THEN y ELSE D(y.v, r.pos, cs)

\* ps: the parameter record
DecComp(rt, ps, b, pos, pk, cs, path) ==
    LET o0 == "$" :> ps IN
    CASE rt.k = "struct" -> DecFields(rt, Decl(rt.r).fields, 1, o0, b, pos, pk, <<cs, path>>)
      [] rt.k = "choice" ->
           LET s == ChoiceSel(rt, o0)
               fs == CompFields(rt)
               rest == [n \in {fs[i].name : i \in 1..Len(fs)} |-> Inactive]
           IN IF ~s.ok THEN Fail(s.why)
              ELSE IF s.f = <<>> THEN D(o0 @@ rest, pos, cs)
              ELSE LET r == DecField(rt, s.f[1], o0, b, pos, pk, cs, path) IN
                   IF ~r.ok THEN r ELSE D(r.v @@ rest, r.pos, r.cs)
      [] rt.k = "union" ->
           LET fs == Decl(rt.r).fields
               tpath == path \o "/$t"
               tg == IF pk THEN LET r == CtxRead(Cx(cs, tpath), TagPrim, b, pos) IN
                                IF ~r.ok THEN r ELSE D(r.v, r.pos, (tpath :> r.c) @@ cs)
                     ELSE LET r == SizeDec(b, pos) IN IF ~r.ok THEN r ELSE D(r.v, r.pos, cs)
           IN IF ~tg.ok THEN tg
              ELSE IF BLe(BI(Len(fs)), tg.v) THEN Fail("tag")
              ELSE LET i == BInt(tg.v) + 1
                       r == DecField(rt, fs[i], ("$t" :> i) @@ o0, b, tg.pos, pk, tg.cs, path)
                       rest == [n \in {fs[j].name : j \in 1..Len(fs)} |-> Inactive]
                   IN IF ~r.ok THEN r ELSE D(r.v @@ rest, r.pos, r.cs)

DecFields(rt, fs, i, o, b, pos, pk, cp) ==
    IF i > Len(fs) THEN D(o, pos, cp[1])
    ELSE LET r == DecField(rt, fs[i], o, b, pos, pk, cp[1], cp[2]) IN
         IF ~r.ok THEN r
         ELSE DecFields(rt, fs, i + 1, r.v, b, r.pos, pk, <<r.cs, cp[2]>>)

DecField(rt, f, o, b, pos, pk, cs, path) ==
    IF f.cond # <<>> /\ Undef(EvalE(f.cond[1], ObjEnv(rt, o, -1))) THEN Fail("loose")
    ELSE IF ~CondHolds(rt, f, o) THEN D((f.name :> Inactive) @@ o, pos, cs)
    ELSE LET p0 == IF f.opt /\ AlignFirst THEN pos + FieldPad(f, pos) ELSE pos IN
    IF f.opt /\ p0 >= Len(b) THEN Fail("eof")
    ELSE IF f.opt /\ b[p0 + 1] = 0 THEN D((f.name :> <<>>) @@ o, p0 + 1, cs)
    ELSE LET p1 == IF f.opt THEN p0 + 1 ELSE p0
             p2 == IF f.opt /\ AlignFirst THEN p1 ELSE p1 + FieldPad(f, p1)
         IN IF p2 > Len(b) THEN Fail("eof")
            ELSE LET r == IF f.arr # <<>> THEN DecArr(rt, f, o, b, p2, pk)
                          ELSE DecElem(FieldType(rt, f), ObjEnv(rt, o, -1), b, p2, pk /\ ~f.isoff, cs, path \o "/" \o f.name)
                 IN IF ~r.ok THEN r
                    ELSE D((f.name :> (IF f.opt THEN <<r.v>> ELSE r.v)) @@ o, r.pos,
                           IF f.arr # <<>> THEN cs ELSE r.cs)

DecArr(rt, f, o, b, pos, pk) ==
    LET ft == FieldType(rt, f)
        apk == (pk \/ f.arr[1].packed) /\ Packable(ft) /\ ~f.isoff
        declared == IF f.arr[1].len # <<>> THEN ArrLen(rt, f, o) ELSE TUndef
        hd == IF f.arr[1].len # <<>>
              THEN (IF Undef(declared) \/ BIsNeg(declared.v) \/ BLt(MAXSIZE, declared.v) THEN Fail("loose")
                    ELSE Ok(declared.v, pos))
              ELSE SizeDec(b, pos)
    IN IF ~hd.ok THEN hd
       ELSE DecArrFrom(rt, f, ft, o, b, hd.pos, BInt(hd.v), apk, NoMap, <<>>, 0)
\* still: consecutive elements so far that took no bits
DecArrFrom(rt, f, ft, o, b, pos, left, apk, cs, acc, still) ==
    IF left = 0 THEN D(acc, pos, NoMap)
    ELSE IF still > MAXEMPTY THEN Fail("huge")
    ELSE LET p == IF f.offidx THEN pos + PadTo(pos, 8) ELSE pos IN
         IF p > Len(b) THEN Fail("eof")
         ELSE LET r == DecElem(ft, ObjEnv(rt, o, Len(acc)), b, p, apk, cs, "") IN
              IF ~r.ok THEN r
              ELSE DecArrFrom(rt, f, ft, o, b, r.pos, left - 1, apk, r.cs, Append(acc, r.v),
                              IF r.pos = pos THEN still + 1 ELSE 0)

Decode(rt, ps, b, pos) == DecComp(rt, ps, b, pos, FALSE, NoMap, "")

\* what decoding the encoding of v yields: canonical leaves, unselected members unspecified
RECURSIVE CanonElem(_, _, _), Canon(_, _)
CanonElem(rt, x, env) == IF IsComp(rt) THEN Canon(rt, x)
                         ELSE IF rt.k = "prim" THEN PrimCanon(rt.t, x) ELSE x
CanonField(rt, f, v) ==
    IF ~CondHolds(rt, f, v) THEN Inactive
    ELSE LET ft == FieldType(rt, f)
             one(x) == IF f.arr # <<>> THEN [i \in 1..Len(x) |-> CanonElem(ft, x[i], 0)]
                       ELSE CanonElem(ft, x, 0)
         IN IF f.opt THEN (IF v[f.name] = <<>> THEN <<>> ELSE <<one(v[f.name][1])>>)
            ELSE one(v[f.name])
Canon(rt, v) ==
    LET fs == CompFields(rt)
        active == CASE rt.k = "struct" -> {fs[i].name : i \in 1..Len(fs)}
                    [] rt.k = "choice" -> LET s == ChoiceSel(rt, v).f IN {s[i].name : i \in 1..Len(s)}
                    [] rt.k = "union" -> {fs[v["$t"]].name}
    IN [n \in DOMAIN v |->
          IF n = "$" \/ n = "$t" THEN v[n]
          ELSE IF n \in active THEN CanonField(rt, fs[FieldIdx(fs, n)], v) ELSE Inactive]
=============================================================================
