----------------------------- MODULE MC_TableCache -----------------------------
(* The cache of transform tables of one field: a map from sizes to tables that starts unset, a      *)
(* mutex, and threads that request or initialise sizes.  One step of a thread is one access to the   *)
(* map or the mutex; inserting takes two steps, between which the map must not be read.              *)
(* Locked = FALSE is the cache that looks a table up before taking the mutex.                        *)
(* KeepLock = TRUE is one that forgets the mutex when building a table fails.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Good, Bad, Reqs, Locked, KeepLock
VARIABLES set, map, next, lock, wr, pc, req, todo, left, rets, race
vars == <<set, map, next, lock, wr, pc, req, todo, left, rets, race>>
Sizes == Good \cup Bad
Free == 0
Error == 0
Fine == 100
Requests == {<<"get", {n}>> : n \in Sizes} \cup {<<"init", S>> : S \in {s \in SUBSET Sizes : s # {} /\ Cardinality(s) <= 2}}
Init == /\ set = FALSE /\ map = << >> /\ next = 1 /\ lock = Free /\ wr = Free
        /\ pc = [t \in Threads |-> "idle"] /\ req = [t \in Threads |-> << >>] /\ todo = [t \in Threads |-> {}]
        /\ left = [t \in Threads |-> Reqs] /\ rets = {} /\ race = FALSE
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Size(t) == CHOOSE n \in req[t][2] : TRUE
Same(vs) == UNCHANGED vs
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ \E r \in Requests : /\ req' = [req EXCEPT ![t] = r]
                                   /\ Go(t, IF r[1] = "init" THEN "lock2" ELSE IF Locked THEN "lock1" ELSE "look1")
            /\ Same(<<set, map, next, lock, wr, todo, rets, race>>)
(* first lookup *)
Lock(t, at, to) == /\ pc[t] = at /\ lock = Free /\ lock' = t /\ Go(t, to)
                   /\ Same(<<set, map, next, wr, req, todo, left, rets, race>>)
Return(t, v, r) == rets' = r \cup {<<req[t], v>>}
Look(t) == /\ pc[t] = "look1" /\ race' = (race \/ (wr # Free /\ wr # t))
           /\ IF set /\ Size(t) \in DOMAIN map
              THEN Return(t, map[Size(t)], rets) /\ Go(t, "idle")
              ELSE Go(t, "lock2") /\ Same(rets)
           /\ lock' = (IF Locked THEN Free ELSE lock)
           /\ Same(<<set, map, next, wr, req, todo, left>>)
(* building, with the mutex *)
Plan(t) == /\ pc[t] = "plan" /\ todo' = [todo EXCEPT ![t] = IF set THEN req[t][2] \ DOMAIN map ELSE req[t][2]] /\ Go(t, "build")
           /\ Same(<<set, map, next, lock, wr, req, left, rets, race>>)
Build(t) == /\ pc[t] = "build" /\ todo[t] # {}
            /\ \E n \in todo[t] :
                 IF n \in Bad
                 THEN \* the error leaves the map, which is kept only if it was there before
                      /\ Return(t, Error, rets) /\ Go(t, "idle") /\ lock' = (IF KeepLock THEN lock ELSE Free)
                      /\ map' = (IF set THEN map ELSE << >>) /\ Same(<<todo, wr, next>>)
                 ELSE /\ todo' = [todo EXCEPT ![t] = @ \ {n}] /\ map' = (n :> next) @@ map /\ next' = next + 1
                      /\ wr' = t /\ Go(t, "written") /\ Same(<<lock, rets>>)
            /\ Same(<<set, req, left, race>>)
Written(t) == /\ pc[t] = "written" /\ wr' = Free /\ Go(t, "build")
              /\ Same(<<set, map, next, lock, req, todo, left, rets, race>>)
Built(t) == /\ pc[t] = "build" /\ todo[t] = {} /\ set' = TRUE /\ lock' = Free
            /\ IF req[t][1] = "init" THEN Return(t, Fine, rets) /\ Go(t, "idle") ELSE Same(rets) /\ Go(t, "lock3")
            /\ Same(<<map, next, wr, req, todo, left, race>>)
(* second lookup, with the mutex *)
Read(t) == /\ pc[t] = "read" /\ Return(t, map[Size(t)], rets) /\ Go(t, "idle") /\ lock' = Free
           /\ race' = (race \/ wr # Free)
           /\ Same(<<set, map, next, wr, req, todo, left>>)
Step(t) == \/ Start(t) \/ Lock(t, "lock1", "look1") \/ Look(t) \/ Lock(t, "lock2", "plan") \/ Plan(t) \/ Build(t)
           \/ Written(t) \/ Built(t) \/ Lock(t, "lock3", "read") \/ Read(t)
Done == (\A t \in Threads : left[t] = 0 /\ pc[t] = "idle") /\ UNCHANGED vars
Next == (\E t \in Threads : Step(t)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

NoRace == ~race
(* supported sizes give a table, always the same; unsupported ones an error *)
Answers == \A x \in rets :
    IF x[1][1] = "get"
    THEN LET n == CHOOSE n \in x[1][2] : TRUE IN
         IF n \in Bad THEN x[2] = Error ELSE x[2] # Error /\ \A y \in rets : y[1] = x[1] => y[2] = x[2]
    ELSE x[2] = (IF x[1][2] \cap Bad # {} THEN Error ELSE Fine)
Distinct == \A n, k \in DOMAIN map : n # k => map[n] # map[k]
Kept == [][set => set' /\ \A n \in DOMAIN map : n \in DOMAIN map' /\ map'[n] = map[n]]_vars
(* every request ends *)
Ends == <>(\A t \in Threads : left[t] = 0 /\ pc[t] = "idle")
=============================================================================
