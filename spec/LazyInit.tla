------------------------------ MODULE LazyInit ------------------------------
(* Lookup tables that are built on first use and shared by all threads      *)
(* (C25).  Each thread performs Calls calls; a call makes sure each table   *)
(* it needs has been built, then looks a row up.  Building a table of Rows  *)
(* rows takes one step per row, as does a lookup's passage over them.        *)
(* Guarded: the first to come builds, the others wait (what the library      *)
(* does); unguarded: "if it is empty, build it" (what it once did) - the     *)
(* negative control, which has to violate NoRace and Whole.                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads, Tables, Rows, Calls, Guarded

VARIABLES vPc,      \* per thread: "idle", "enter", "build", "read", "end"
          vCall,    \* per thread: calls done
          vTab,     \* per thread: table of the present call
          vOwner,   \* per table: 0 untouched, t being built by t, Done
          vRows,    \* per table: set of rows present
          vAt,      \* per thread: next row to write or read
          vSaw      \* per thread: rows missing from what it read, <<>> if none

Done == "done"
NoOne == "none"
vars == <<vPc, vCall, vTab, vOwner, vRows, vAt, vSaw>>
Init == /\ vPc = [ t \in Threads |-> "idle" ] /\ vCall = [ t \in Threads |-> 0 ] /\ vTab \in [ Threads -> Tables ]
        /\ vOwner = [ b \in Tables |-> {} ] /\ vRows = [ b \in Tables |-> {} ]
        /\ vAt = [ t \in Threads |-> 1 ] /\ vSaw = [ t \in Threads |-> {} ]
Begin(t) == /\ vPc[t] = "idle" /\ vCall[t] < Calls
            /\ \E b \in Tables : vTab' = [ vTab EXCEPT ![t] = b ]
            /\ vPc' = [ vPc EXCEPT ![t] = "enter" ]
            /\ UNCHANGED <<vCall, vOwner, vRows, vAt, vSaw>>
\* the guard: only one builds, and only when nobody has; vOwner[b] is the set of those who entered
Enter(t) == LET b == vTab[t]
                built == vRows[b] # {} /\ (Guarded => vRows[b] = 1..Rows)
                free == ~Guarded \/ vOwner[b] = {}
            IN /\ vPc[t] = "enter"
               /\ \/ /\ built /\ (Guarded => vOwner[b] = {})
                     /\ vPc' = [ vPc EXCEPT ![t] = "read" ] /\ UNCHANGED vOwner
                  \/ /\ ~built /\ free
                     /\ vPc' = [ vPc EXCEPT ![t] = "build" ] /\ vOwner' = [ vOwner EXCEPT ![b] = @ \cup {t} ]
               /\ vAt' = [ vAt EXCEPT ![t] = 1 ]
               /\ UNCHANGED <<vCall, vTab, vRows, vSaw>>
Build(t) == LET b == vTab[t] IN
            /\ vPc[t] = "build"
            /\ IF vAt[t] <= Rows
               THEN vRows' = [ vRows EXCEPT ![b] = @ \cup {vAt[t]} ] /\ vAt' = [ vAt EXCEPT ![t] = @ + 1 ] /\ UNCHANGED <<vPc, vOwner>>
               ELSE vPc' = [ vPc EXCEPT ![t] = "read" ] /\ vOwner' = [ vOwner EXCEPT ![b] = @ \ {t} ] /\ vAt' = [ vAt EXCEPT ![t] = 1 ] /\ UNCHANGED vRows
            /\ UNCHANGED <<vCall, vTab, vSaw>>
Read(t) == LET b == vTab[t] IN
           /\ vPc[t] = "read"
           /\ IF vAt[t] <= Rows
              THEN vSaw' = [ vSaw EXCEPT ![t] = IF vAt[t] \in vRows[b] THEN @ ELSE @ \cup {vAt[t]} ] /\ vAt' = [ vAt EXCEPT ![t] = @ + 1 ] /\ UNCHANGED <<vPc, vCall>>
              ELSE vPc' = [ vPc EXCEPT ![t] = "idle" ] /\ vCall' = [ vCall EXCEPT ![t] = @ + 1 ] /\ UNCHANGED <<vAt, vSaw>>
           /\ UNCHANGED <<vTab, vOwner, vRows>>
Next == \E t \in Threads : Begin(t) \/ Enter(t) \/ Build(t) \/ Read(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Begin(t) \/ Enter(t) \/ Build(t) \/ Read(t))

\* nobody writes a table another reads or writes
Writes(t, b) == vPc[t] = "build" /\ vTab[t] = b
Reads(t, b) == vPc[t] = "read" /\ vTab[t] = b
NoRace == \A b \in Tables, t, u \in Threads : t # u /\ Writes(t, b) => ~Writes(u, b) /\ ~Reads(u, b)
\* every lookup sees the whole table, as it would alone
Whole == \A t \in Threads : vSaw[t] = {}
\* everybody gets through
Finish == <>(\A t \in Threads : vCall[t] = Calls)
=============================================================================
