------------------------------- MODULE Errors -------------------------------
(* C14, C22: forecast errors of a region, of representatives, and their     *)
(* summary.                                                                 *)
(*                                                                          *)
(* Numbers are integers in units of 1/V of the original unit.  A region is  *)
(* [obs, train, lo, rg]: observations and training data of each member, and *)
(* for a scaled region the scaling of each member (rg = <<>> otherwise).    *)
(* Errors are in units of 1/UnitOf(kind), rounded down.                     *)
EXTENDS SeriesMath, SequencesExt, FiniteSets, TLC

V == 16
Undef == 2000000001
Infin == 2000000002
Kinds == {"MSE", "MASE", "sMAPE"}
UnitOf(kind) == CASE kind = "MSE" -> 8 [] kind = "MASE" -> 32 [] OTHER -> 64
\* a forecast f of the models as it stands at member q, in original units
InOriginal(R, q, f) == IF f = Undef THEN Undef ELSE IF R.rg = <<>> THEN f ELSE f * R.rg[q] + V * R.lo[q]
At(R, q, fc) == [j \in DOMAIN fc |-> InOriginal(R, q, fc[j])]
Change(t) == FoldLeft(LAMBDA acc, i : acc + Abs(t[i] - t[i - 1]), 0, [i \in 1..(Len(t) - 1) |-> i + 1])
SAbs(f, o) == SumSeq([j \in DOMAIN o |-> Abs(f[j] - o[j])])
SSq(f, o) == SumSeq([j \in DOMAIN o |-> Sq(f[j] - o[j])])
\* the error of forecast f (original units) against observation o with training series t
Err(kind, f, o, t) ==
  IF Undef \in {f[j] : j \in DOMAIN f} THEN Undef
  ELSE CASE kind = "MSE" -> (SSq(f, o) * UnitOf(kind)) \div (V * V * Len(o))
         [] kind = "MASE" -> LET s == SAbs(f, o)  d == Change(t) IN
               IF d = 0 THEN (IF \E j \in DOMAIN o : f[j] = o[j] THEN Undef ELSE Infin)
               ELSE (s * (Len(t) - 1) * UnitOf(kind)) \div (Len(o) * d)
         [] OTHER -> IF \E j \in DOMAIN o : f[j] + o[j] = 0 THEN Undef
               ELSE SumSeq([j \in DOMAIN o |-> (200 * UnitOf(kind) * Abs(f[j] - o[j])) \div (f[j] + o[j])]) \div Len(o)
\* the errors at all members when member q is forecast with fcs[q]
ErrMap(kind, R, fcs) == [q \in DOMAIN R.obs |-> Err(kind, At(R, q, fcs[q]), R.obs[q], R.train[q])]
Repeated(R, fc) == [q \in DOMAIN R.obs |-> fc]
\* r is the root mean square of the defined errors in m (both rounded)
Defined(m) == {q \in DOMAIN m : m[q] # Undef}
IsOverall(r, m) ==
  LET D == Defined(m)  n == Cardinality(D) IN
  CASE D = {} -> r = Undef
    [] \E q \in D : m[q] = Infin -> r = Infin
    [] OTHER -> /\ r < 2000000000
                /\ n * Sq(Max2(0, r - 1)) <= SumF(D, [q \in DOMAIN m |-> Sq(m[q] + 2)])
                /\ n * Sq(r + 1) >= SumF(D, [q \in DOMAIN m |-> Sq(m[q])])
IsErr(e, x) == IF x >= 2000000000 THEN e = x ELSE e < 2000000000 /\ e >= x - 1 /\ e <= x + 2
\* an undefined forecast has no overall error
OverallOf(kind, R, fc) == ErrMap(kind, R, Repeated(R, fc))
----------------------------------------------------------------------------
(* The analysis as an object that remembers forecasts between requests      *)
CONSTANTS WORLDS,           \* sequences of regions [obs, train, lo, rg, fcs] (fcs: forecast of the model of each member)
          DEPTH, ForgetOnTrain
VARIABLES regs, cur, cache, ret, steps
vars == <<regs, cur, cache, ret, steps>>
Init == regs \in WORLDS /\ cur = 0 /\ cache = 0 /\ ret = <<>> /\ steps = 0
Train(r) == cur' = r /\ cache' = (IF ForgetOnTrain THEN 0 ELSE cache) /\ ret' = <<>>
FcsOf(r) == regs[r].fcs
Held == IF cache = 0 THEN cur ELSE cache
Each(k) == cur # 0 /\ cache' = cur /\ cur' = cur /\ ret' = <<"each", k, ErrMap(k, regs[cur], FcsOf(cur))>>
Single(k, p) == cur # 0 /\ cache' = Held /\ cur' = cur /\ p \in DOMAIN regs[cur].obs
                /\ ret' = <<"single", k, p, ErrMap(k, regs[cur], Repeated(regs[cur], FcsOf(Held)[p]))>>
All(k) == cur # 0 /\ cache' = Held /\ cur' = cur
          /\ ret' = <<"all", k, [p \in DOMAIN regs[cur].obs |-> ErrMap(k, regs[cur], Repeated(regs[cur], FcsOf(Held)[p]))]>>
Next == /\ steps < DEPTH /\ steps' = steps + 1 /\ regs' = regs
        /\ \/ \E r \in DOMAIN regs : Train(r)
           \/ \E k \in Kinds : Each(k) \/ All(k) \/ \E p \in 1..4 : Single(k, p)
Spec == Init /\ [][Next]_vars
(* what is asked is answered for the models trained last *)
Own(k, r) == ErrMap(k, regs[r], FcsOf(r))
Answered == ret # <<>> =>
  CASE ret[1] = "each" -> ret[3] = Own(ret[2], cur)
    [] ret[1] = "single" -> ret[4] = OverallOf(ret[2], regs[cur], FcsOf(cur)[ret[3]])
    [] OTHER -> \A p \in DOMAIN ret[3] : ret[3][p] = OverallOf(ret[2], regs[cur], FcsOf(cur)[p])
(* the member that is its own representative is in both maps *)
Diagonal == (ret # <<>> /\ ret[1] = "all") => \A p \in DOMAIN ret[3] : ret[3][p][p] = Own(ret[2], cur)[p]
(* a perfect forecast has no error, and errors are never negative *)
Sane == \A r \in DOMAIN regs : \A k \in Kinds : \A q \in DOMAIN regs[r].obs :
   LET R == regs[r]  o == R.obs[q] IN
   /\ Own(k, r)[q] >= 0
   /\ Err(k, o, o, R.train[q]) \in {0, Undef}
(* with scaling, the errors are those of the data before it was scaled *)
Plain(R) == [obs |-> R.obs, train |-> R.train, lo |-> <<>>, rg |-> <<>>]
UnitsKept == \A r \in DOMAIN regs : \A k \in Kinds :
   Own(k, r) = ErrMap(k, Plain(regs[r]), [q \in DOMAIN regs[r].obs |-> At(regs[r], q, FcsOf(r)[q])])
=============================================================================
