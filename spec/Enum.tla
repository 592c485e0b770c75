-------------------------------- MODULE Enum -------------------------------
(* Complete enumerations of small operand shapes and arguments per operation.   *)
EXTENDS Args

Shp(lo, hi, Ds) == UNION {[1..n -> Ds] : n \in lo..hi}
D3 == {1, 2, 3}
A(ss, par) == [ss |-> ss, par |-> par]
PD(d) == [Par1 EXCEPT !.d = d]
PS(s) == [Par1 EXCEPT !.s = s]
PR(rs) == [Par1 EXCEPT !.r = rs]
PQ(q) == [Par1 EXCEPT !.q = q]

RangesOf(d) == {<<0, 0>>} \cup {<<f, t>> \in (0..d) \X (0..d) : f < t}
RECURSIVE IndexesOf(_)
IndexesOf(s) ==           \* every valid index list for shape s
  IF s = <<>> THEN {<<>>}
  ELSE {<<>>} \cup {<<rg>> \o tl : rg \in RangesOf(s[1]), tl \in IndexesOf(Tail(s))}
RECURSIVE PatchesOf(_)
PatchesOf(s) ==           \* every <<source shape, index>> for target shape s
  IF s = <<>> THEN {<<<<>>, <<>>>>}
  ELSE UNION { UNION {
         { <<<<d>> \o tl[1], <<rg>> \o tl[2]>> : rg \in {<<0, 0>>} \cup {<<f, f + d>> : f \in 0..(s[1] - d)} }
         \cup (IF tl[2] = <<>> THEN {<<<<d>> \o tl[1], <<>>>>} ELSE {})
         : tl \in PatchesOf(Tail(s)) } : d \in 1..s[1] }

EnumArgs(op, big) ==
  LET DD == IF big THEN {1, 2, 3, 4} ELSE D3
      rk == IF big THEN 4 ELSE 3
  IN
  CASE op = "Scale" -> {A(<<s>>, PQ(RPick(<<1,2,3>>, 1, ScaleBys))) : s \in Shp(0, rk, D3)} \cup
                       {A(<<<<2, 3>>>>, PQ(ScaleBys[i])) : i \in 1..Len(ScaleBys)}
    [] op = "Pow" -> {A(<<s>>, PQ(<<2, 1>>)) : s \in Shp(0, rk, D3)} \cup
                     {A(<<<<2, 3>>>>, PQ(PowExps[i])) : i \in 1..Len(PowExps)}
    [] op \in (UnaryOps \ {"Scale", "Pow"}) -> {A(<<s>>, Par1) : s \in Shp(0, rk, D3)}
    [] op \in CmpOps \cup ElOps -> {A(<<s, s>>, Par1) : s \in Shp(0, rk, D3)}
    [] op \in ArithOps -> {A(<<s, t>>, Par1) : <<s, t>> \in
                             {p \in Shp(0, rk, D3) \X Shp(0, rk, D3) : BroadcastCompatible(p[1], p[2])}}
    [] op \in RedOps -> UNION {{A(<<s>>, PD(d)) : d \in 0..(Len(s) - 1)} : s \in Shp(1, rk, DD)}
    [] op = "Slice" -> UNION {{A(<<s>>, PR(ix)) : ix \in IndexesOf(s)} : s \in Shp(0, 2, DD) \cup Shp(3, 3, {1, 2})}
    [] op = "Patch" -> UNION {{A(<<s, p[1]>>, PR(p[2])) : p \in PatchesOf(s)} : s \in Shp(0, 2, DD) \cup Shp(3, 3, {1, 2})}
    [] op = "Concat" -> UNION {{A(<<s, [s EXCEPT ![d + 1] = m]>>, PD(d)) : d \in 0..(Len(s) - 1), m \in D3} : s \in Shp(1, 3, D3)}
                        \cup {A(<<s, s, s>>, PD(Len(s) - 1)) : s \in Shp(1, 3, {1, 2})}
    [] op = "Transpose" -> {A(<<s>>, Par1) : s \in Shp(2, rk, DD)}
    [] op = "Reshape" -> LET S == {s \in Shp(0, 3, {1, 2, 3, 4, 6}) : NEl(s) <= 12} IN
                         {A(<<s>>, PS(t)) : <<s, t>> \in {p \in S \X S : NEl(p[1]) = NEl(p[2])}}
    [] op = "UnSqueeze" -> UNION {{A(<<s>>, PD(d)) : d \in 0..Len(s)} : s \in Shp(0, rk, D3)}
    [] op = "Squeeze" -> UNION {{A(<<s>>, PD(d)) : d \in {d \in 0..(Len(s) - 1) : s[d + 1] = 1}} : s \in Shp(1, rk, D3)}
    [] op = "Flatten" -> UNION {{A(<<s>>, PD(d)) : d \in 0..(Len(s) - 1)} : s \in Shp(1, rk, D3)}
    [] op = "Broadcast" -> {A(<<s>>, PS(t)) : <<s, t>> \in
                              {p \in Shp(0, rk, D3) \X Shp(0, rk, D3) : BroadcastsTo(p[1], p[2])}}
    [] op = "Dot" -> {A(<<s \o <<n>>, t \o <<n>>>>, Par1) : <<s, t, n>> \in
                        {p \in Shp(0, 2, D3) \X Shp(0, 2, D3) \X D3 : BroadcastCompatible(p[1], p[2])}}
    [] op = "MatMul" -> {A(<<s \o <<m, n>>, t \o <<n, k>>>>, Par1) : <<s, t, m, n, k>> \in
                        {p \in Shp(0, 2, {1, 2}) \X Shp(0, 2, {1, 2}) \X {1, 2} \X {1, 2, 3} \X {1, 2} : BroadcastCompatible(p[1], p[2])}}
=============================================================================
