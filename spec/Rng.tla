-------------------------------- MODULE Rng --------------------------------
(* A small deterministic, splittable pseudo-random generator, so that every   *)
(* sampled scenario is a function of (VERIF_SEED, case number) alone and is    *)
(* independent of TLC's worker count and exploration order.  Three linear      *)
(* congruential streams (the Wichmann-Hill moduli, all below 2^15 so that no   *)
(* product overflows TLC's 32-bit integers).                                   *)
EXTENDS Integers, Sequences

RStep(r) == << (171 * r[1] + 1) % 30269, (172 * r[2] + 7) % 30307, (170 * r[3] + 13) % 30323 >>

RMix(r, k) == RStep(RStep(RStep(<< (r[1] + 13 * (k % 2003) + 3 * (k \div 2003)) % 30269,
                       (r[2] + 57 * (k % 1009) + 7 * (k \div 1009)) % 30307,
                       (r[3] + 91 * (k % 503)  + 11 * (k \div 503)) % 30323 >>)))

RSeed(seed, i) == RMix(RMix(RMix(<<seed % 30269, (7 * (seed % 10007) + 3) % 30307, 1>>, i % 9973), i \div 9973), 77)

(* integer in 0..n-1 drawn from stream r at label k *)
RInt(r, k, n) == LET s == RMix(r, k) IN (s[1] + s[2] + s[3] + s[1] \div 7) % n
(* integer in lo..hi *)
RRange(r, k, lo, hi) == lo + RInt(r, k, hi - lo + 1)
(* element of a sequence *)
RPick(r, k, seq) == seq[1 + RInt(r, k, Len(seq))]
RBool(r, k) == RInt(r, k, 2) = 1
(* true with probability n/d *)
RChance(r, k, n, d) == RInt(r, k, d) < n
=============================================================================
