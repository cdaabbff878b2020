----------------------------- MODULE Sha256Fast -----------------------------
(***************************************************************************)
(* The same digest, under a name that java/Sha256Fast.java overrides so    *)
(* that TLC can evaluate many thousands of them. Sha256Test.tla checks the *)
(* override against the definition.                                        *)
(***************************************************************************)
LOCAL S == INSTANCE Sha256
Digest(b) == S!Digest64(b)
=============================================================================
