-------------------------------- MODULE Nums --------------------------------
(***************************************************************************)
(* Integers of any size.  TLC's own integers are 32 bit, datashape sizes   *)
(* are not.  A number is <<sgn, l1, .., ln>>: the sign and the limbs of the*)
(* magnitude in base 10^4, least significant first, without leading zeros. *)
(* Zero is <<0>>.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

NBase == 10000
NZero == <<0>>
NOne  == <<1, 1>>

\* ---------------------------------------------------------------- magnitudes
RECURSIVE MStrip(_)
MStrip(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN MStrip(SubSeq(m, 1, Len(m)-1)) ELSE m

RECURSIVE MCmpAt(_,_,_)
MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE MCmpAt(a, b, i-1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpAt(a, b, Len(a))

MLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE MAddC(_,_,_,_)
MAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == MLimb(a,i) + MLimb(b,i) + c
       IN <<s % NBase>> \o MAddC(a, b, i+1, s \div NBase)
MAdd(a, b) == MAddC(a, b, 1, 0)

RECURSIVE MSubC(_,_,_,_)
MSubC(a, b, i, c) ==          \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - MLimb(b,i) - c
       IN <<(s + NBase) % NBase>> \o MSubC(a, b, i+1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == MStrip(MSubC(a, b, 1, 0))

RECURSIVE MMulC(_,_,_,_)
MMulC(a, k, i, c) ==          \* k < NBase
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * k + c
       IN <<s % NBase>> \o MMulC(a, k, i+1, s \div NBase)
MMulSmall(a, k) == MStrip(MMulC(a, k, 1, 0))

\* largest digit d in lo..hi with d*b <= a
RECURSIVE MQuot(_,_,_,_)
MQuot(a, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMulSmall(b, mid), a) <= 0 THEN MQuot(a, b, mid, hi)
                                             ELSE MQuot(a, b, lo, mid-1)

\* long division, limbs of a from the most significant; <<quotient, remainder>>
RECURSIVE MDivC(_,_,_,_,_)
MDivC(a, b, i, q, r) ==
  IF i = 0 THEN <<MStrip(q), r>>
  ELSE LET r1 == MStrip(<<a[i]>> \o r)
           d  == MQuot(r1, b, 0, NBase-1)
       IN MDivC(a, b, i-1, <<d>> \o q, MSub(r1, MMulSmall(b, d)))
MDivMod(a, b) == MDivC(a, b, Len(a), <<>>, <<>>)

\* ------------------------------------------------------------------- numbers
NMk(s, m) == LET t == MStrip(m) IN IF t = <<>> THEN NZero ELSE <<s>> \o t
NSgn(a) == a[1]
NMag(a) == SubSeq(a, 2, Len(a))
NNeg(a) == NMk(-NSgn(a), NMag(a))
NAbs(a) == NMk(1, NMag(a))

NInt(i) == LET RECURSIVE L(_)
               L(k) == IF k = 0 THEN <<>> ELSE <<k % NBase>> \o L(k \div NBase)
           IN IF i = 0 THEN NZero ELSE IF i > 0 THEN <<1>> \o L(i) ELSE <<-1>> \o L(-i)

NCmp(a, b) == IF NSgn(a) # NSgn(b) THEN (IF NSgn(a) < NSgn(b) THEN -1 ELSE 1)
              ELSE IF NSgn(a) >= 0 THEN MCmp(NMag(a), NMag(b)) ELSE MCmp(NMag(b), NMag(a))
NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(a, b) THEN a ELSE b

NAdd(a, b) ==
  IF NSgn(a) = 0 THEN b ELSE IF NSgn(b) = 0 THEN a
  ELSE IF NSgn(a) = NSgn(b) THEN NMk(NSgn(a), MAdd(NMag(a), NMag(b)))
  ELSE IF MCmp(NMag(a), NMag(b)) >= 0 THEN NMk(NSgn(a), MSub(NMag(a), NMag(b)))
  ELSE NMk(NSgn(b), MSub(NMag(b), NMag(a)))
NSub(a, b) == NAdd(a, NNeg(b))

\* floor division, b # 0
NFloorDiv(a, b) ==
  LET qr == MDivMod(NMag(a), NMag(b))
      q  == NMk(1, qr[1])
  IN IF NSgn(a) = 0 THEN NZero
     ELSE IF NSgn(a) = NSgn(b) THEN q
     ELSE IF qr[2] = <<>> THEN NNeg(q) ELSE NSub(NNeg(q), NOne)

\* the number as a TLC integer, if it is below a billion
NSmall(a) == Len(a) <= 3
NToInt(a) == NSgn(a) * ((IF Len(a) >= 2 THEN a[2] ELSE 0) + (IF Len(a) >= 3 THEN a[3] ELSE 0) * NBase)

\* decimal digits <-> magnitude; digits are code points 48..57
RECURSIVE NDigitsM(_)
NDigitsM(ds) ==
  IF ds = <<>> THEN <<>>
  ELSE LET n == Len(ds)
           k == IF n < 4 THEN n ELSE 4
           RECURSIVE V(_,_)
           V(i, acc) == IF i > n THEN acc ELSE V(i+1, acc*10 + (ds[i]-48))
       IN <<V(n-k+1, 0)>> \o NDigitsM(SubSeq(ds, 1, n-k))
NFromDigits(s, ds) == NMk(s, NDigitsM(ds))

NDig4(v) == <<48 + (v \div 1000), 48 + ((v \div 100) % 10), 48 + ((v \div 10) % 10), 48 + (v % 10)>>
RECURSIVE NDrop0(_)
NDrop0(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NDrop0(Tail(t)) ELSE t
RECURSIVE NMagText(_)
NMagText(m) == IF m = <<>> THEN <<>> ELSE NMagText(Tail(m)) \o NDig4(m[1])
NText(a) == IF NSgn(a) = 0 THEN <<48>>
            ELSE (IF NSgn(a) < 0 THEN <<45>> ELSE <<>>) \o NDrop0(NMagText(NMag(a)))
=============================================================================
