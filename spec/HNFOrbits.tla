------------------------------- MODULE HNFOrbits --------------------------------
(* Sublattices H Z^n under a group of symmetries lg of Z^n: H and K are in the   *)
(* same orbit when M H and K span the same lattice for some M in lg.             *)
EXTENDS HNF
Related(H, K, lg) == NEq(Det(H), Det(K)) /\ LET Ki == MInv(K) IN \E M \in lg : MIsInt(MMul(Ki, MMul(M, H)))
(* R reduces S: a subset with exactly one member of each orbit                    *)
Reduces(R, S, lg) == /\ R \subseteq S
                     /\ \A h \in S : \E r \in R : Related(h, r, lg)
                     /\ \A r, q \in R : r # q => ~Related(r, q, lg)
=================================================================================
