-------------------------------- MODULE MCThreads --------------------------------
(* Two threads, each calling an operation on data of its own.  What they share *)
(* is the table of bins, filled by whichever call comes first and marked as    *)
(* filled afterwards; what a call works with while it runs is its own.         *)
(* Undisturbed: whatever the interleaving, a call reads of the table only      *)
(* entries that are there, and of its working memory only what it put there.   *)
(* Every schedule with at most MaxSwitch preemptions is printed when it ends;  *)
(* harness/threads.py has the real library run under these.                    *)
(* Bug # 0 are ways of getting it wrong, kept to show that this can fail:      *)
(* 1 marks the table before filling it, 2 has working memory in common,        *)
(* 3 remembers the last result under a key that is written before the result.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS NF, NW, MaxSwitch, Bug
Threads == {1, 2}
VARIABLES flag, table, ph, i, good, work, key, val, run, sw, cnt, fresh
vars == <<flag, table, ph, i, good, work, key, val, run, sw, cnt, fresh>>

Other(t) == 3 - t
Init == /\ fresh \in BOOLEAN
        /\ flag = ~fresh
        /\ table = IF fresh THEN {} ELSE 1..NF
        /\ ph = [t \in Threads |-> "look"]
        /\ i = [t \in Threads |-> 1]
        /\ good = [t \in Threads |-> TRUE]
        /\ work = [t \in Threads |-> <<0, 0>>]
        /\ key = 0 /\ val = 0
        /\ run = 1 /\ sw = <<>> /\ cnt = [t \in Threads |-> 0]

Mine(t) == IF Bug = 2 THEN 1 ELSE t          \* where t keeps its working memory
Go(t, p, j) == ph' = [ph EXCEPT ![t] = p] /\ i' = [i EXCEPT ![t] = j]

Look(t) == /\ ph[t] = "look"
           /\ Go(t, IF flag THEN "put" ELSE "fill", 1)
           /\ flag' = IF ~flag /\ Bug = 1 THEN TRUE ELSE flag
           /\ UNCHANGED <<table, good, work, key, val>>
Fill(t) == /\ ph[t] = "fill"
           /\ table' = table \cup {i[t]}
           /\ IF i[t] < NF THEN Go(t, "fill", i[t] + 1) ELSE Go(t, IF Bug = 1 THEN "put" ELSE "mark", 1)
           /\ UNCHANGED <<flag, good, work, key, val>>
Mark(t) == /\ ph[t] = "mark" /\ flag' = TRUE /\ Go(t, "put", 1)
           /\ UNCHANGED <<table, good, work, key, val>>
Put(t) == /\ ph[t] = "put"
          /\ IF Bug = 3
             THEN /\ key' = t /\ Go(t, IF key = t THEN "get" ELSE "value", i[t]) /\ UNCHANGED <<work, val>>
             ELSE /\ work' = [work EXCEPT ![Mine(t)] = <<t, i[t]>>] /\ Go(t, "get", i[t]) /\ UNCHANGED <<key, val>>
          /\ UNCHANGED <<flag, table, good>>
Value(t) == /\ ph[t] = "value" /\ val' = t /\ Go(t, "get", i[t])
            /\ UNCHANGED <<flag, table, good, work, key>>
Get(t) == /\ ph[t] = "get"
          /\ good' = [good EXCEPT ![t] = @ /\ 1 + (i[t] % NF) \in table
                                            /\ IF Bug = 3 THEN val = t ELSE work[Mine(t)] = <<t, i[t]>>]
          /\ IF i[t] < NW THEN Go(t, "put", i[t] + 1) ELSE Go(t, "done", 1)
          /\ UNCHANGED <<flag, table, work, key, val>>

Step(t) == /\ run = t /\ ph[t] # "done"
           /\ Look(t) \/ Fill(t) \/ Mark(t) \/ Put(t) \/ Value(t) \/ Get(t)
           /\ cnt' = [cnt EXCEPT ![t] = @ + 1]
           /\ UNCHANGED <<run, sw, fresh>>
Preempt == /\ Len(sw) < MaxSwitch /\ ph[run] # "done" /\ ph[Other(run)] # "done" /\ cnt[run] > 0
           /\ run' = Other(run) /\ sw' = Append(sw, cnt[run])
           /\ UNCHANGED <<flag, table, ph, i, good, work, key, val, cnt, fresh>>
Yield == /\ ph[run] = "done" /\ ph[Other(run)] # "done" /\ run' = Other(run)
         /\ UNCHANGED <<flag, table, ph, i, good, work, key, val, sw, cnt, fresh>>
End == /\ \A t \in Threads : ph[t] = "done"
       /\ run' = 0
       /\ (MaxSwitch < 4 => PrintT(<<"S", IF fresh THEN 1 ELSE 0, sw, cnt[1], cnt[2]>>))
       /\ UNCHANGED <<flag, table, ph, i, good, work, key, val, sw, cnt, fresh>>
Next == run # 0 /\ ((\E t \in Threads : Step(t)) \/ Preempt \/ Yield \/ End)
Spec == Init /\ [][Next]_vars
Undisturbed == \A t \in Threads : good[t]
(* states but for how they were come by: any number of preemptions *)
Where == <<flag, table, ph, i, good, work, key, val, run, fresh>>
(* the table is complete once it is marked *)
Marked == flag => table = 1..NF
==================================================================================
