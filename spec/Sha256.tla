------------------------------- MODULE Sha256 -------------------------------
(***************************************************************************)
(* FIPS 180-4 SHA-256 of one 64-byte message, as a round-by-round machine. *)
(* A 32-bit word is a pair <<hi, lo>> of 16-bit halves, because TLC's      *)
(* integers are signed 32-bit numbers.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise

H16 == 65536
W(hi, lo) == <<hi, lo>>

WAdd(a, b) == LET lo == a[2] + b[2]
                 hi == a[1] + b[1] + lo \div H16
             IN <<hi % H16, lo % H16>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
\* rotation and shift by 0 <= n < 16 of the 32-bit word
RotrSmall(a, n) == LET m == P2[n + 1]  u == P2[17 - n]
                   IN << a[1] \div m + (a[2] % m) * u, a[2] \div m + (a[1] % m) * u >>
Rotr(a, n) == IF n < 16 THEN RotrSmall(a, n) ELSE RotrSmall(<<a[2], a[1]>>, n - 16)
Shr(a, n) == LET m == P2[n + 1]  u == P2[17 - n]
             IN << a[1] \div m, a[2] \div m + (a[1] % m) * u >>

Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))
BigSigma0(x) == WXor(WXor(Rotr(x, 2), Rotr(x, 13)), Rotr(x, 22))
BigSigma1(x) == WXor(WXor(Rotr(x, 6), Rotr(x, 11)), Rotr(x, 25))
Sigma0(x) == WXor(WXor(Rotr(x, 7), Rotr(x, 18)), Shr(x, 3))
Sigma1(x) == WXor(WXor(Rotr(x, 17), Rotr(x, 19)), Shr(x, 10))

K == <<
    <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
    <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
    <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
    <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
    <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
    <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
    <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
    <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
    <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
    <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
    <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
    <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
    <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
    <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
    <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
    <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>

H0 == <<
    <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
    <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

\* word t (1-based) of a block of 64 bytes, big-endian
BlockWord(b, t) == << b[4*t - 3] * 256 + b[4*t - 2], b[4*t - 1] * 256 + b[4*t] >>

RECURSIVE Extend(_)
Extend(w) == LET t == Len(w)
             IN IF t = 64 THEN w
                ELSE Extend(Append(w, WAdd(WAdd(Sigma1(w[t - 1]), w[t - 6]),
                                          WAdd(Sigma0(w[t - 14]), w[t - 15]))))
Schedule(b) == Extend([t \in 1..16 |-> BlockWord(b, t)])

\* one round: s = <<a,b,c,d,e,f,g,h>>
Round(s, k, w) ==
    LET t1 == WAdd(WAdd(WAdd(s[8], BigSigma1(s[5])), WAdd(Ch(s[5], s[6], s[7]), k)), w)
        t2 == WAdd(BigSigma0(s[1]), Maj(s[1], s[2], s[3]))
    IN << WAdd(t1, t2), s[1], s[2], s[3], WAdd(s[4], t1), s[5], s[6], s[7] >>

RECURSIVE Rounds(_, _, _)
Rounds(s, w, t) == IF t > 64 THEN s ELSE Rounds(Round(s, K[t], w[t]), w, t + 1)

Compress(h, b) == LET s == Rounds(h, Schedule(b), 1)
                  IN [i \in 1..8 |-> WAdd(h[i], s[i])]

\* the padding block of a 64-byte (512-bit) message
PaddingBlock == [i \in 1..64 |-> IF i = 1 THEN 128 ELSE IF i = 63 THEN 2 ELSE 0]

Bytes32Of(h) == [i \in 1..32 |->
    LET w == h[(i - 1) \div 4 + 1]  k == (i - 1) % 4
    IN CASE k = 0 -> w[1] \div 256 [] k = 1 -> w[1] % 256
         [] k = 2 -> w[2] \div 256 [] k = 3 -> w[2] % 256]

Digest64(b) == Bytes32Of(Compress(Compress(H0, b), PaddingBlock))
=============================================================================
