------------------------------- MODULE Events -------------------------------
(* Events and their listeners, at the granularity of single listener calls, so that listeners may do anything with  *)
(* the event while they are called. A firing is a frame on a stack:                                                 *)
(*   fire    - FireBegin takes a snapshot of the attached listeners                                                 *)
(*   call    - the next listener of the snapshot which is due is called                                             *)
(*   ret     - it returns a true or false value, or raises                                                          *)
(*   end     - the firing ends, with a result                                                                       *)
(* In between, whoever runs (the program, or the listener being called) attaches, closes and releases listeners,    *)
(* drops owners, looks at the event, or fires it again.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

VARIABLES att,      \* listeners in the order they were attached, while they (may) exist
          open,     \* those which may be called
          held,     \* those whose token somebody still refers to
          owner,    \* listener -> its owner (0: none)
          owners,   \* owners which exist
          used,     \* listeners and owners which have been used (number of)
          zombie,   \* released while a firing may still refer to them
          stack     \* firings in progress, the innermost last
vars == <<att, open, held, owner, owners, used, zombie, stack>>

Init0 == att = <<>> /\ open = {} /\ held = {} /\ owner = <<>> /\ owners = {} /\ used = 0 /\ zombie = {} /\ stack = <<>>

Top == stack[Len(stack)]
Running == IF stack = <<>> THEN TRUE ELSE Top.cur # 0          \* somebody other than the event itself is running
Without(seq, S) == SelectSeq(seq, LAMBDA x : x \notin S)
SetTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]

Listen(id, o, call) ==
  /\ Running /\ id = used + 1
  /\ (o # 0 => o \in owners)
  /\ used' = id
  /\ att' = Append(att, id) /\ held' = held \cup {id}
  /\ open' = IF call THEN open \cup {id} ELSE open
  /\ owner' = Append(owner, o)
  /\ UNCHANGED <<owners, zombie, stack>>

NewOwner(o) == Running /\ owners' = owners \cup {o} /\ UNCHANGED <<att, open, held, owner, used, zombie, stack>>

Close(id) == Running /\ id \in held /\ open' = open \ {id} /\ UNCHANGED <<att, held, owner, owners, used, zombie, stack>>

(* listeners nobody refers to any more: gone, at the latest when no firing is in progress *)
Collect(S) ==
  IF stack = <<>> THEN att' = Without(att, S) /\ open' = open \ S /\ zombie' = {} 
  ELSE att' = att /\ open' = open /\ zombie' = zombie \cup S

Release(id) ==
  /\ Running /\ id \in held
  /\ held' = held \ {id}
  /\ IF owner[id] = 0 \/ owner[id] \notin owners THEN Collect({id}) ELSE UNCHANGED <<att, open, zombie>>
  /\ UNCHANGED <<owner, owners, used, stack>>

DropOwner(o) ==
  /\ Running /\ o \in owners
  /\ owners' = owners \ {o}
  /\ LET mine == {id \in ToSet(att) : owner[id] = o}
         gone == mine \ held IN
     IF stack = <<>> THEN att' = Without(att, gone) /\ open' = open \ mine /\ zombie' = {}
     ELSE att' = att /\ open' = open \ mine /\ zombie' = zombie \cup gone
  /\ UNCHANGED <<held, owner, used, stack>>

FireBegin(kind, arg) ==
  /\ Running
  /\ stack' = Append(stack, [kind |-> kind, arg |-> arg, todo |-> att, cur |-> 0, last |-> "", raised |-> FALSE, after |-> 0])
  /\ UNCHANGED <<att, open, held, owner, owners, used, zombie>>

(* a listener whose turn comes must be called if it is open; it need not be if it was released meanwhile *)
MaySkip(id) == id \notin open \/ id \in zombie
EarlyExit(f) == (f.kind = "any" /\ f.last = "true") \/ (f.kind = "all" /\ f.last = "false")

Call(id, arg) ==
  /\ stack # <<>> /\ Top.cur = 0 /\ arg = Top.arg /\ ~EarlyExit(Top)
  /\ id \in open
  /\ \E i \in 1 .. Len(Top.todo) :
       /\ Top.todo[i] = id
       /\ \A j \in 1 .. i-1 : MaySkip(Top.todo[j])
       /\ SetTop([Top EXCEPT !.todo = SubSeq(Top.todo, i + 1, Len(Top.todo)), !.cur = id, !.after = IF Top.raised THEN 1 ELSE 0])
  /\ UNCHANGED <<att, open, held, owner, owners, used, zombie>>

Ret(v) ==
  /\ stack # <<>> /\ Top.cur # 0
  /\ SetTop([Top EXCEPT !.cur = 0, !.last = v, !.raised = Top.raised \/ v = "raise"])
  /\ UNCHANGED <<att, open, held, owner, owners, used, zombie>>

Result(f, result) ==
  CASE f.kind = "fire" -> TRUE
    [] f.raised -> result = "False" \/ f.after = 1
    [] f.kind = "any" -> result = IF f.last = "true" THEN "True" ELSE "False"
    [] f.kind = "all" -> result = IF f.last = "false" THEN "False" ELSE "True"

End(result) ==
  /\ stack # <<>> /\ Top.cur = 0
  /\ Top.raised \/ EarlyExit(Top) \/ \A j \in 1 .. Len(Top.todo) : MaySkip(Top.todo[j])
  /\ Result(Top, result)
  /\ LET rest == SubSeq(stack, 1, Len(stack) - 1) IN
     /\ stack' = rest
     /\ IF rest = <<>> THEN att' = Without(att, zombie) /\ open' = open \ zombie /\ zombie' = {}
        ELSE UNCHANGED <<att, open, zombie>>
  /\ UNCHANGED <<held, owner, owners, used>>

(* what listener_count and listeners show, asked while no firing is in progress: the open ones, no released ones *)
Look(count, ids) ==
  /\ stack = <<>>
  /\ Without(ids, ToSet(att) \ open) = Without(att, ToSet(att) \ open)
  /\ ToSet(ids) \subseteq ToSet(att) /\ Len(ids) = Cardinality(ToSet(ids))
  /\ count = Len(ids)
  /\ UNCHANGED vars

Do(e) ==
  CASE e.e = "listen" -> Listen(e.id, e.o, e.callable)
    [] e.e = "owner" -> NewOwner(e.o)
    [] e.e = "close" -> Close(e.id)
    [] e.e = "release" -> Release(e.id)
    [] e.e = "drop" -> DropOwner(e.o)
    [] e.e = "fire" -> FireBegin(e.kind, e.arg)
    [] e.e = "call" -> Call(e.id, e.arg)
    [] e.e = "ret" -> Ret(e.v)
    [] e.e = "end" -> End(e.result) /\ e.reported   \* failures have been reported (printed)
    [] e.e = "look" -> Look(e.count, e.ids)
    [] OTHER -> FALSE

(* --------------------------------------------- properties of the design --------------------------------------- *)
TypeOk ==
  /\ open \subseteq ToSet(att) /\ zombie \subseteq ToSet(att)
  /\ Len(att) = Cardinality(ToSet(att))
  /\ \A i, j \in 1 .. Len(att) : i < j => att[i] < att[j]
  /\ stack = <<>> => zombie = {}
  /\ \A id \in ToSet(att) : id \in held \/ id \in zombie \/ (owner[id] # 0 /\ owner[id] \in owners)
(* nothing in a snapshot was attached after it was taken, nothing is called twice *)
Snapshots == \A k \in 1 .. Len(stack) : LET f == stack[k] IN
  /\ Len(f.todo) = Cardinality(ToSet(f.todo))
  /\ f.cur \notin ToSet(f.todo)
  /\ \A i, j \in 1 .. Len(f.todo) : i < j => f.todo[i] < f.todo[j]
=============================================================================
