--------------------------- MODULE ValidatorLife ---------------------------
(***************************************************************************)
(* The life of a validator record under the three predicates of the        *)
(* library (SszObject: IsActive, IsSlashableValidator, IsEligible): it is  *)
(* deposited with some balance, queued, activated, exits or is slashed,    *)
(* and becomes withdrawable, as in the phase-0 state transition with small *)
(* delays. Fault plants an error in the life cycle or a predicate:         *)
(*   none, requeue (a queued validator is queued again), closed (the exit  *)
(*   epoch itself counts as active), forget (slashing does not set the     *)
(*   flag), early (withdrawable at the exit epoch)                         *)
(***************************************************************************)
EXTENDS SszObject
CONSTANTS LastEpoch, Lookahead, Delay, Fault

VARIABLES epoch, v, stage, slashings
vars == <<epoch, v, stage, slashings>>

Far == FAR_FUTURE_EPOCH
E8(e) == PadTo(<<e>>, 8)
Ix(name) == FieldIx(TValidator, name)
Set(w, name, x) == [w EXCEPT ![Ix(name)] = x]
At(name) == v[Ix(name)]
Deposited(full) ==
    LET z == Zero(TValidator)
        a == Set(Set(z, "activation_eligibility_epoch", Far), "activation_epoch", Far)
        b == Set(Set(a, "exit_epoch", Far), "withdrawable_epoch", Far)
    IN Set(b, "effective_balance", IF full THEN MAX_EFFECTIVE_BALANCE ELSE SubSeq(MAX_EFFECTIVE_BALANCE, 1, 2) \o Zeros(6))
Active(w, e) == IF Fault = "closed" THEN LeLE(Get(TValidator, w, "activation_epoch"), e) /\ LeLE(e, Get(TValidator, w, "exit_epoch"))
                ELSE IsActive(w, e)
Now == E8(epoch)

Init == /\ epoch = 0 /\ slashings = 0 /\ stage = "deposited"
        /\ v \in {Deposited(TRUE), Deposited(FALSE)}
Keep(w) == v' = w /\ UNCHANGED <<epoch, slashings>>
TopUp == /\ At("effective_balance") # MAX_EFFECTIVE_BALANCE
         /\ Keep(Set(v, "effective_balance", MAX_EFFECTIVE_BALANCE)) /\ UNCHANGED stage
Queue == /\ IF Fault = "requeue" THEN At("effective_balance") = MAX_EFFECTIVE_BALANCE ELSE IsEligible(v)
         /\ stage' = "queued" /\ Keep(Set(v, "activation_eligibility_epoch", E8(epoch + 1)))
Activate == /\ At("activation_eligibility_epoch") # Far /\ LeLE(At("activation_eligibility_epoch"), Now)
            /\ At("activation_epoch") = Far
            /\ stage' = "activated" /\ Keep(Set(v, "activation_epoch", E8(epoch + 1 + Lookahead)))
Leaving(w) == Set(Set(w, "exit_epoch", E8(epoch + 1 + Lookahead)), "withdrawable_epoch",
                  E8(epoch + 1 + Lookahead + (IF Fault = "early" THEN 0 ELSE Delay)))
Exit == /\ Active(v, Now) /\ At("exit_epoch") = Far
        /\ stage' = "exiting" /\ Keep(Leaving(v))
Slash == /\ IsSlashableValidator(v, Now)
         /\ slashings' = slashings + 1 /\ stage' = "slashed"
         /\ v' = LET w == IF At("exit_epoch") = Far THEN Leaving(v) ELSE v
                 IN IF Fault = "forget" THEN w ELSE Set(w, "slashed", 1)
         /\ UNCHANGED epoch
Tick == epoch < LastEpoch /\ epoch' = epoch + 1 /\ UNCHANGED <<v, stage, slashings>>
Next == TopUp \/ Queue \/ Activate \/ Exit \/ Slash \/ Tick

SlashedOnce == slashings <= 1
\* a validator on duty can be punished, and so can one that has left until it may withdraw
Punishable == At("slashed") = 0 /\ Active(v, Now) => IsSlashableValidator(v, Now)
Lingering == At("slashed") = 0 /\ At("exit_epoch") # Far /\ LeLE(At("exit_epoch"), Now)
             => (IsSlashableValidator(v, Now) = LtLE(Now, At("withdrawable_epoch")))
AfterExit == At("exit_epoch") # Far /\ Now = At("exit_epoch")
             => ~Active(v, Now) /\ (At("slashed") = 0 => IsSlashableValidator(v, Now))
\* queued at most once: the eligible have not been queued, let alone activated
Unqueued == IsEligible(v) => At("activation_epoch") = Far /\ ~Active(v, Now)
Ordered == /\ At("activation_epoch") # Far => LtLE(At("activation_eligibility_epoch"), At("activation_epoch"))
           /\ LeLE(At("exit_epoch"), At("withdrawable_epoch"))
\* activity is one stretch of epochs, and being slashable one that contains it
Stretch == \A a, b, c \in 0..(LastEpoch + Lookahead) : a <= b /\ b <= c =>
             /\ Active(v, E8(a)) /\ Active(v, E8(c)) => Active(v, E8(b))
             /\ IsSlashableValidator(v, E8(a)) /\ IsSlashableValidator(v, E8(c)) => IsSlashableValidator(v, E8(b))
=============================================================================
