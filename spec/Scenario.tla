------------------------------- MODULE Scenario ------------------------------
(* The space of calls that the conformance checks explore.  A behaviour        *)
(* chooses, dimension by dimension, what kind of call is made and what its     *)
(* arguments look like; what may follow depends on what was chosen before.     *)
(* The last step emits the scenario.  TLC in simulation mode (seed VERIF_SEED) *)
(* draws behaviours; numbers are filled in from the seed digits by the driver. *)
(* Options are sequences: an entry that occurs k times is drawn k times as     *)
(* often.  KIND selects the family of calls, FOCUS the property being decided. *)
EXTENDS Integers, Sequences, TLC, IOUtils, SmallQP

Kind == IOEnv.KIND
Focus == IOEnv.FOCUS

VARIABLES c,    \* what has been chosen: dimension -> value
          d,    \* number of dimensions decided
          out   \* "choosing" | "emitted"
vars == <<c, d, out>>

RECURSIVE Rep_(_, _)
Rep_(n, s) == IF n = 0 THEN <<>> ELSE s \o Rep_(n - 1, s)
W(n, x) == Rep_(n, <<x>>) \* weight n
Digits == [i \in 1..100 |-> ToString(i - 1)]

Dims ==
  CASE Kind = "com" -> <<"mode", "flag", "nph", "rep", "solver", "cost", "mot", "easy", "kin", "acc", "red",
                         "geom", "dtk", "tim", "dens", "mass", "ang", "pat", "l0", "edge", "side", "s1", "s2">>
    [] Kind = "zero" -> <<"ang", "mode", "mot", "easy", "kin", "angc", "l0", "geom", "dur", "edge", "side", "s1", "s2">>
    [] Kind = "sys" -> <<"ang", "kin", "angc", "geom", "wps", "nph", "mag", "s1", "s2">>
    [] Kind = "wp" -> <<"flag", "mag", "tim", "zero", "stop", "s1", "s2">>
    [] Kind = "duel" -> <<"fam", "threads", "mode", "rep", "flag", "flagE", "ang", "angc", "geom", "kin", "easy", "acc", "cost", "api", "solver", "hk", "kindc", "s1", "s2">>
    [] Kind = "ee" -> <<"flag", "mot", "wt", "ori", "tim", "path", "s1", "s2">>
    [] Kind = "qp" -> <<"hk", "kindc", "num", "n", "me", "full", "mi", "s1", "s2">>
    [] Kind = "abs" -> <<"solver", "api", "bnd", "hk", "kindc", "num", "n", "me", "full", "mi", "zrow", "lin", "badty", "s1", "s2">>
    [] Kind = "qpx" -> <<"hx", "gx", "ex", "r1", "r2", "r3">>
    [] Kind = "absx" -> <<"solver", "bnd", "hx", "gx", "ex", "r1", "r2", "r3">>
    [] Kind = "time" -> <<"durs", "step", "nph", "ppp", "s1", "s2">>
    [] Kind = "pre" -> <<"zeros", "rhs", "rows", "cols", "mag", "wr", "wc", "ns", "s1", "s2">>
    [] Kind = "errf" -> <<"block">>
    [] Kind = "erro" -> <<"a", "b">>
    [] Kind = "erra" -> <<"mode", "nph", "nts", "flag", "cost", "solver", "still", "s1", "s2">>
    [] Kind = "hist" -> <<"mode", "flag", "nph", "solver", "cost", "mot", "easy", "kin", "acc", "geom", "s1", "s2", "reuse",
                          "h1", "h2", "h3", "h4", "h5", "h6">>
    [] Kind = "conc" -> <<"mode", "flag", "nph", "solver", "cost", "mot", "easy", "kin", "acc", "geom", "s1", "s2", "threads", "rounds",
                          "spread", "h1", "h2", "h3", "h4", "h5", "h6">>
    [] OTHER -> <<"s1", "s2">>

-----------------------------------------------------------------------------
ComFlags == <<"11", "19", "27", "7", "15", "31", "63", "27", "63", "31", "255">>
Com(k) ==
  CASE k = "mode" ->
         (CASE Focus = "C05" -> <<"cont">>
            [] Focus \in {"C02", "C03", "C04"} -> <<"disc", "fixed">>
            [] OTHER -> <<"disc", "fixed", "cont">>)
    [] k = "flag" -> ComFlags
    [] k = "nph" -> W(6, "1") \o W(8, "2") \o W(6, "3") \o W(2, "4") \o <<"5", "6">>
    [] k = "rep" -> IF c["mode"] = "cont" /\ c["flag"] # "255" /\ c["nph"] \in {"1", "2", "3"} THEN W(3, "dd") \o W(1, "force") ELSE <<"dd">>
    [] k = "solver" -> IF c["mode"] = "fixed" THEN <<"qp">> ELSE W(3, "qp") \o W(1, "glpk")
    [] k = "cost" -> IF c["flag"] \in {"11", "7", "15"} THEN W(3, "acc") \o W(2, "dist") \o W(2, "vel")
                     ELSE W(2, "acc") \o W(1, "dist")
    [] k = "mot" -> W(2, "static") \o W(5, "slow") \o W(2, "fast") \o (IF Focus = "C06" THEN W(2, "wild") ELSE W(1, "wild"))
    [] k = "easy" -> IF Focus = "C06" THEN <<"0.2", "0.5", "1.0">> ELSE W(3, "0.1") \o W(2, "0.3") \o W(1, "0.6")
    [] k = "kin" -> IF Focus = "C03" THEN W(1, "box") \o W(2, "tight") \o W(1, "mix") \o W(4, "vary")
                    ELSE W(2, "none") \o W(2, "box") \o W(1, "tight") \o W(2, "mix") \o W(2, "vary")
    [] k = "acc" -> IF Focus = "C04" THEN W(1, "loose") \o W(3, "tight") ELSE W(3, "off") \o W(2, "loose") \o W(2, "tight")
    [] k = "red" -> IF c["rep"] = "force" THEN <<"def">> ELSE W(3, "def") \o W(1, "0") \o W(2, "big") \o W(1, "neg")
    [] k = "geom" -> W(4, "flat") \o W(2, "stairs") \o W(2, "tilt") \o W(1, "far") \o W(1, "orig0") \o W(1, "orig1") \o (IF c["rep"] = "dd" THEN W(1, "wall") ELSE <<>>)
    [] k = "dtk" -> IF c["mode"] = "disc" THEN <<"frac", "dy">> ELSE <<"frac">>
    \* durations: fractions of a power of two, or not; long, short, very different
    [] k = "tim" -> W(8, "dy") \o <<"long", "uneven", "short">> \o (IF c["dtk"] = "dy" THEN <<>> ELSE <<"any", "dec">>)
    [] k = "dens" -> IF c["nph"] \in {"1", "2"} THEN W(7, "norm") \o <<"fine">> ELSE <<"norm">>
    [] k = "mass" -> W(6, "same") \o <<"mix", "light", "heavy">>
    \* a transition knows nothing of angular momentum
    [] k = "ang" -> W(5, "off") \o <<"on">>
    [] k = "pat" -> IF c["nph"] = "2" THEN W(3, "any") \o W(1, "swap") \o W(2, "free")
                     ELSE IF c["nph"] \in {"1", "3"} THEN W(4, "any") \o W(1, "free") \o W(1, "stay")
                     ELSE W(2, "any") \o W(1, "free") \o W(5, "stay")
    [] k = "l0" -> IF c["ang"] = "on" THEN <<"any">> ELSE <<"zero">>
    \* the problem is brought to the border of what is accepted
    [] k = "edge" ->
         IF Focus \in {"C01", "C08", "C17"} \/ (c["rep"] = "force" /\ c["nph"] # "1") THEN <<"none">>
         ELSE LET red == IF c["rep"] = "dd" THEN W(2, "red") ELSE <<>>
                  kin == IF c["kin"] # "none" THEN W(2, "kin") ELSE <<>>
                  acc == IF c["mode"] = "cont" \/ c["acc"] # "off" THEN W(2, "acc") ELSE <<"acc">>
                  oth == <<"goal", "push", "land">>
              IN  CASE Focus = "C02" -> W(5, "none") \o red \o kin \o acc \o oth
                    [] Focus = "C03" -> W(5, "none") \o red \o red \o oth \o acc
                    [] Focus = "C04" -> W(3, "none") \o W(2, "acc") \o red \o oth
                    [] Focus = "C05" -> W(7, "none") \o red \o kin \o acc \o oth
                    [] Focus = "C07" -> W(16, "none") \o red \o kin \o acc \o oth
                    [] OTHER -> W(5, "none") \o red \o kin \o acc \o oth
    [] k = "side" -> IF c["edge"] = "none" THEN <<"in">> ELSE IF Focus = "C06" THEN <<"out">> ELSE <<"in">>
    [] OTHER -> Digits
Zero(k) ==
  CASE k = "ang" -> <<"on", "off">>
    [] k = "mode" -> <<"disc", "cont">>
    [] k = "mot" -> W(1, "static") \o W(3, "slow") \o W(3, "fast") \o W(1, "wild")
    [] k = "easy" -> <<"0.3", "0.8", "1.2">>
    [] k = "kin" -> W(2, "none") \o W(2, "box") \o W(1, "tight") \o W(3, "rows")
    [] k = "angc" -> IF c["ang"] = "on" THEN W(1, "on") \o W(2, "rows") \o W(1, "off") ELSE <<"off">>
    [] k = "l0" -> IF c["ang"] = "on" THEN W(3, "any") \o W(1, "zero") ELSE <<"zero">>
    [] k = "geom" -> W(4, "flat") \o W(2, "stairs") \o W(2, "tilt") \o W(1, "far") \o W(1, "orig0")
    [] k = "dur" -> <<"0.4", "0.8", "1.5", "2.5">>
    [] k = "edge" -> W(4, "none") \o W(3, "push") \o (IF c["kin"] # "none" THEN W(2, "kin") ELSE <<>>)
                     \o (IF c["angc"] # "off" THEN W(3, "ang") ELSE <<>>)
    [] k = "side" -> IF c["edge"] = "none" THEN <<"in">> ELSE IF Focus = "C12" THEN <<"in", "out", "out">> ELSE <<"in">>
    [] OTHER -> Digits
Sys(k) ==
  CASE k = "ang" -> <<"on", "off">>
    [] k = "kin" -> <<"none", "box", "tight", "rows">>
    [] k = "angc" -> <<"on", "rows", "off">>
    [] k = "geom" -> <<"flat", "stairs", "tilt", "far">>
    [] k = "wps" -> <<"1", "2", "3", "5", "8">>
    [] k = "nph" -> <<"1">>
    [] k = "mag" -> <<"mid", "big", "small", "grid">>
    [] OTHER -> Digits
Wp(k) ==
  CASE k = "flag" -> <<"11", "19", "27", "7", "15", "31", "63", "255", "767", "2303", "255", "767", "2303">>
    [] k = "mag" -> <<"small", "mid", "big">>
    [] k = "tim" -> <<"dy", "one", "tiny", "long", "any">>
    [] k = "zero" -> W(3, "none") \o <<"c0", "c1", "rest", "comp">>
    [] k = "stop" -> IF c["flag"] = "19" THEN W(3, "yes") \o W(1, "no") ELSE <<"yes">>
    [] OTHER -> Digits
EE(k) ==
  CASE k = "flag" -> <<"255", "767", "2303">>
    [] k = "mot" -> W(3, "step") \o W(1, "hop") \o W(2, "rest") \o W(1, "wild")
    [] k = "wt" -> W(2, "0") \o W(1, "1") \o W(2, "mid")
    [] k = "ori" -> W(3, "any") \o <<"zero0", "zero1", "flat">>
    [] k = "tim" -> W(2, "mid") \o <<"short", "long", "one">>
    [] k = "path" -> W(3, "any") \o W(1, "low")
    [] OTHER -> Digits
Ints(a, b) == [i \in 1..(b - a + 1) |-> ToString(a + i - 1)]
Qp(k) ==
  CASE k = "hk" -> W(3, "spd") \o W(2, "diag") \o <<"eye", "ill", "tiny", "large", "mini", "huge", "mixed", "mixed">>
    [] k = "kindc" -> W(4, "feas") \o W(2, "dup") \o W(2, "box") \o <<"sparse", "scaled">> \o W(3, "near") \o W(2, "degen")
                      \o W(2, "wild") \o W(2, "infeas") \o W(2, "infsum")
    [] k = "num" -> <<"any", "any", "grid">>
    [] k = "n" -> Ints(1, 9) \o <<"3", "3", "3", "12">> \o (IF c["kindc"] \in {"feas", "dup", "box"} THEN <<"20">> ELSE <<>>)
    [] k = "me" -> W(3, "0") \o Ints(1, 5)
    [] k = "full" -> W(12, "no") \o <<"yes">>
    [] k = "mi" -> Ints(0, 12) \o <<"20", "30", "45">> \o (IF c["kindc"] \in {"feas", "dup", "box"} THEN <<"90">> ELSE <<>>)
    [] OTHER -> Digits
(* the small problems of SmallQP, one by one *)
RECURSIVE Csv_(_, _)
Csv_(t, i) == IF i > Len(t) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o ToString(t[i]) \o Csv_(t, i + 1)
Csvs(ts) == [i \in 1..Len(ts) |-> Csv_(ts[i], 1)]
RowOptions == Csvs(Rows)
Qpx(k) ==
  CASE k = "hx" -> IF Kind = "absx" /\ c["solver"] = "glpk" THEN <<Csvs(Hessians)[1]>> ELSE Csvs(Hessians)
    [] k = "gx" -> Csvs(Gradients)
    [] k = "ex" -> Csvs(Equalities)
    [] k = "solver" -> <<"qp", "glpk">>
    [] k = "bnd" -> <<"none", "small">>
    [] k = "r3" -> IF c["ex"] = "" THEN RowOptions ELSE <<"">>
    [] OTHER -> RowOptions
Abs(k) ==
  CASE k = "solver" -> <<"qp", "glpk">>
    [] k = "api" -> <<"core", "core", "pair", "ineqpair">>
    [] k = "bnd" -> IF c["api"] = "ineqpair" THEN <<"none">>
                    ELSE W(2, "none") \o <<"lo", "hi", "cross", "pos", "wide", "far", "far">> \o W(3, "both") \o W(3, "part") \o W(2, "fix")
    [] k = "hk" -> W(3, "spd") \o W(2, "diag") \o <<"eye", "ill", "mixed">>
    [] k = "me" -> IF c["api"] = "ineqpair" THEN <<"0">> ELSE W(3, "0") \o Ints(1, 4)
    [] k = "full" -> IF c["api"] = "ineqpair" THEN <<"no">> ELSE W(12, "no") \o <<"yes">>
    [] k = "kindc" -> W(6, "feas") \o W(3, "dup") \o W(2, "box") \o W(2, "sparse") \o <<"scaled", "near">> \o W(2, "degen")
                      \o <<"wild", "infeas", "infsum">>
    [] k = "zrow" -> W(9, "none") \o <<"neg", "zero", "pos">>
    [] k = "lin" -> W(5, "any") \o <<"zero">>
    [] k = "badty" -> <<"0", "3", "4", "77">>
    [] k = "mi" -> Ints(1, 12) \o <<"20", "30">>
    [] OTHER -> Qp(k)
Time(k) ==
  CASE k = "durs" -> W(3, "any") \o W(2, "dy") \o <<"same", "mixed">> \o W(2, "dec")
    [] k = "step" -> W(3, "any") \o W(2, "div") \o <<"half", "fine">> \o W(2, "dec")
    [] k = "nph" -> Ints(1, 6) \o <<"10">>
    [] k = "ppp" -> Ints(1, 12) \o <<"25", "40">>
    [] OTHER -> Digits
Pre(k) ==
  CASE k = "zeros" -> W(3, "some") \o W(2, "most") \o <<"none", "all">>
    [] k = "rhs" -> W(3, "pos") \o W(2, "mixed") \o <<"zero", "badend", "badfirst">>
    [] k = "rows" -> Ints(1, 10) \o <<"25">>
    [] k = "cols" -> Ints(1, 6) \o <<"9">>
    [] k = "mag" -> <<"unit", "unit", "wide">>
    [] k = "wr" -> <<"3", "3", "6", "1">>
    [] k = "wc" -> <<"3", "3", "6", "1">>
    [] k = "ns" -> Ints(1, 9)
    [] OTHER -> Digits
(* refusals: every set of flags (in blocks of 64), sizes, arguments *)
Size3 == <<"111", "112", "121", "122", "211", "212", "221", "222">>
Erra(k) ==
  CASE k = "mode" -> <<"disc", "cont", "fixed">>
    [] k = "nph" -> <<"1", "2", "3">>
    [] k = "nts" -> W(5, c["nph"]) \o <<"0", "1", "2", "3", "4", "7">>
    [] k = "flag" -> W(2, "27") \o <<"11", "19", "19", "7", "15", "31", "63", "255", "255", "0", "3", "9", "91", "767", "2303", "4123", "-1">>
    [] k = "cost" -> W(4, "1") \o W(2, "2") \o W(3, "4") \o <<"0", "3", "8", "16", "-1">>
    [] k = "solver" -> W(4, "1") \o W(2, "2") \o <<"0", "3", "4", "77", "-1">>
    [] k = "still" -> <<"yes", "yes", "no">>
    [] OTHER -> Digits
(* histories: a problem, and calls that differ from it in a few respects, or   *)
(* that are of another kind altogether                                         *)
HistMinor == <<"/easy=0.5", "/easy=0.9", "/cost=dist", "/cost=acc", "/solver=glpk", "/kin=box", "/kin=tight", "/kin=vary", "/acc=tight",
               "/acc=off", "/red=big", "/red=0", "/mot=fast", "/mot=static", "/seed=7", "/seed=8", "/flag=27", "/flag=15",
               "/flag=11", "/flag=63", "/mode=disc/dtk=dy", "/mode=disc/dtk=frac", "/mode=cont", "/mode=fixed", "/mode=fixed/ppp=3",
               "/nph=1", "/nph=2", "/geom=flat", "/geom=stairs", "/mode=cont/rep=force">>
HistOther == <<"/kind=zero/nph=1/ang=on/l0=any/dur=0.8", "/kind=zero/nph=1/ang=off/dur=0.8", "/kind=zero/nph=1/ang=on/angc=on/mode=disc/dur=1.5",
               "/kind=ee/flag=255/mot=step/wt=mid/tim=mid/path=any/ori=any", "/kind=ee/flag=767/mot=step/wt=0/tim=mid/path=any/ori=any",
               "/kind=ee/flag=255/mot=hop/wt=1/tim=one/path=any/ori=zero0",
               "/kind=wp/mag=mid/tim=dy/zero=none/stop=yes", "/kind=wp/mag=big/tim=one/zero=c0/stop=yes", "/kind=wp/flag=255/mag=mid/tim=dy/zero=none/stop=yes",
               "/kind=time/durs=any/step=any/ppp=5", "/kind=pre/zeros=some/rhs=mixed/rows=5/cols=3/mag=unit/wr=3/wc=3/ns=4",
               "/kind=abs/solver=glpk/api=core/bnd=both/hk=spd/kindc=feas/num=any/n=3/me=1/full=no/mi=6/zrow=none/lin=any/badty=3",
               "/kind=abs/solver=glpk/api=core/bnd=none/hk=spd/kindc=infeas/num=any/n=4/me=0/full=no/mi=9/zrow=none/lin=any/badty=3",
               "/kind=abs/solver=qp/api=core/bnd=part/hk=spd/kindc=feas/num=any/n=3/me=0/full=no/mi=8/zrow=none/lin=any/badty=0",
               "/kind=qp/hk=spd/kindc=dup/num=any/n=3/me=1/full=no/mi=9",
               "/kind=erra/mode=disc/nph=2/nts=3/flag=27/cost=1/solver=1/still=yes",
               "/kind=erra/mode=cont/nph=1/nts=1/flag=3/cost=1/solver=1/still=yes",
               "/kind=erra/mode=disc/nph=1/nts=1/flag=27/cost=8/solver=1/still=yes",
               "/kind=erra/mode=disc/nph=1/nts=1/flag=27/cost=1/solver=77/still=yes">>
Hist(k) ==
  CASE k \in {"h1", "h2", "h3", "h4", "h5", "h6"} /\ Kind = "conc" -> W(2, "") \o W(8, "/mode=cont/rep=force") \o HistMinor \o HistMinor \o HistOther
    [] k \in {"h1", "h2", "h3", "h4", "h5", "h6"} -> W(20, "") \o HistMinor \o HistMinor \o HistOther
    [] k = "mode" -> <<"disc", "fixed", "cont">>
    [] k = "flag" -> <<"27", "15", "11", "63", "31", "7", "19", "255">>
    [] k = "nph" -> <<"1", "2", "2", "3">>
    [] k = "solver" -> <<"qp", "qp", "glpk">>
    [] k = "cost" -> <<"acc", "dist">>
    [] k = "mot" -> <<"static", "slow", "fast">>
    [] k = "easy" -> <<"0.1", "0.3">>
    [] k = "kin" -> <<"none", "box", "tight">>
    [] k = "acc" -> <<"off", "loose", "tight">>
    [] k = "geom" -> <<"flat", "stairs", "tilt">>
    [] k = "reuse" -> <<"yes", "no">>
    [] k = "threads" -> <<"2", "3", "4", "6">>
    [] k = "rounds" -> <<"3", "5", "8">>
    [] k = "spread" -> <<"same", "each", "each", "each", "each">>
    [] OTHER -> <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Duel(k) ==
  CASE k = "fam" -> W(4, "zero") \o W(4, "com") \o W(2, "qp") \o <<"ee", "wp">>
    [] k = "threads" -> <<"2", "3", "4", "4">>
    [] k = "mode" -> <<"disc", "fixed", "cont">>
    [] k = "rep" -> <<"dd", "dd", "force">>
    [] k = "flag" -> <<"27", "15", "11", "63", "31", "7", "19", "255">>
    [] k = "flagE" -> <<"255", "767", "2303">>
    [] k \in {"ang", "angc"} -> <<"on", "off">>
    [] k = "geom" -> <<"flat", "stairs", "tilt">>
    [] k = "kin" -> <<"none", "box", "tight">>
    [] k = "easy" -> <<"0.1", "0.3", "0.6">>
    [] k = "acc" -> <<"off", "loose", "tight">>
    [] k = "cost" -> <<"acc", "dist">>
    [] k = "api" -> <<"own", "core", "pair">>
    [] k = "solver" -> <<"qp", "glpk">>
    [] k = "hk" -> <<"spd", "diag">>
    [] k = "kindc" -> <<"feas", "dup", "degen">>
    [] OTHER -> <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
Options(k) ==
  CASE Kind = "errf" -> [i \in 1..128 |-> ToString(i - 1)]
    [] Kind = "erro" -> Size3 [] Kind = "erra" -> Erra(k) [] Kind \in {"hist", "conc"} -> Hist(k) [] Kind = "duel" -> Duel(k)
    [] Kind = "qp" -> Qp(k) [] Kind \in {"qpx", "absx"} -> Qpx(k) [] Kind = "abs" -> Abs(k) [] Kind = "time" -> Time(k) [] Kind = "pre" -> Pre(k) []  Kind = "com" -> Com(k) [] Kind = "zero" -> Zero(k) [] Kind = "sys" -> Sys(k) [] Kind = "wp" -> Wp(k) [] Kind = "ee" -> EE(k)
    [] OTHER -> Digits

-----------------------------------------------------------------------------
RECURSIVE Line_(_)
Line_(i) ==
  IF i > Len(Dims) THEN ""
  ELSE IF Dims[i] = "s1" THEN " seed=" \o c["s1"] \o c["s2"] \o Line_(i + 2)
  ELSE " " \o Dims[i] \o "=" \o c[Dims[i]] \o Line_(i + 1)
HistBase == "kind=com/mode=" \o c["mode"] \o "/flag=" \o c["flag"] \o "/nph=" \o c["nph"] \o "/solver=" \o c["solver"]
            \o "/cost=" \o c["cost"] \o "/mot=" \o c["mot"] \o "/easy=" \o c["easy"] \o "/kin=" \o c["kin"]
            \o "/acc=" \o c["acc"] \o "/geom=" \o c["geom"] \o "/dtk=dy/l0=zero/ppp=4/seed=" \o c["s1"] \o c["s2"]
HistLine == (IF Kind = "hist" THEN " reuse=" \o c["reuse"]
             ELSE " threads=" \o c["threads"] \o " rounds=" \o c["rounds"] \o " spread=" \o c["spread"]) \o " calls=" \o HistBase \o c["h1"] \o ";" \o HistBase \o c["h2"] \o ";" \o HistBase \o c["h3"] \o ";"
            \o HistBase \o c["h4"] \o ";" \o HistBase \o c["h5"] \o ";" \o HistBase \o c["h6"]
(* the calls of a duel: one family, several problems *)
DuelCall(i) ==
  LET seed == "/seed=" \o c["s1"] \o c["s2"] \o ToString(i)
      rest == "/nph=" \o (IF i = 2 THEN "1" ELSE "2") \o "/solver=" \o c["solver"] \o "/cost=" \o c["cost"] \o "/mot=slow/easy=" \o c["easy"] \o "/kin=" \o c["kin"]
              \o "/acc=" \o c["acc"] \o "/geom=" \o c["geom"] \o "/dtk=dy/ppp=4"
  IN  CASE c["fam"] = "zero" -> "kind=zero/nph=1/mode=" \o c["mode"] \o "/ang=" \o c["ang"] \o "/angc=" \o c["angc"] \o "/l0=any/dur=0.8/geom=" \o c["geom"]
                                \o "/kin=" \o c["kin"] \o "/easy=" \o c["easy"] \o "/mot=slow" \o seed
        [] c["fam"] = "com" -> "kind=com/mode=" \o c["mode"] \o "/flag=" \o c["flag"] \o rest \o (IF c["rep"] = "force" /\ c["mode"] = "cont" THEN "/rep=force" ELSE "") \o "/l0=zero" \o seed
        [] c["fam"] = "qp" -> "kind=qp/hk=" \o c["hk"] \o "/kindc=" \o c["kindc"] \o "/num=any/n=" \o ToString(2 + i) \o "/me=1/full=no/mi=" \o ToString(5 + 2 * i)
                              \o "/api=" \o c["api"] \o "/solver=" \o c["solver"] \o seed
        [] c["fam"] = "ee" -> "kind=ee/flag=" \o c["flagE"] \o seed
        [] OTHER -> "kind=wp/flag=" \o (IF i = 2 THEN c["flagE"] ELSE c["flag"]) \o seed
DuelLine == " threads=" \o c["threads"] \o " calls=" \o DuelCall(1) \o ";" \o DuelCall(2) \o ";" \o DuelCall(3)
Line == IF Kind \in {"hist", "conc"} THEN HistLine ELSE IF Kind = "duel" THEN DuelLine ELSE Line_(1)

Init == c = [x \in {"kind"} |-> Kind] /\ d = 0 /\ out = "choosing"
Choose ==
  /\ out = "choosing" /\ d < Len(Dims)
  /\ LET k == Dims[d + 1]
         o == Options(k)
     IN  \E i \in 1..Len(o) : c' = (k :> o[i]) @@ c
  /\ d' = d + 1 /\ UNCHANGED out
Emit ==
  /\ out = "choosing" /\ d = Len(Dims)
  /\ PrintT("SCENARIO kind=" \o Kind \o Line)
  /\ out' = "emitted" /\ UNCHANGED <<c, d>>
Next == Choose \/ Emit
Spec == Init /\ [][Next]_vars
(* what is emitted is a complete, well-formed scenario *)
TypeOK == out = "emitted" => \A i \in 1..Len(Dims) : Dims[i] \in DOMAIN c
=============================================================================
