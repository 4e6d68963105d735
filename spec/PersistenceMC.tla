---------------------------- MODULE PersistenceMC ----------------------------
(* The design: storage is updated in place, at the path of the object which changed as it is when the storage is      *)
(* told. N objects of one class; every transition is printed for replay.                                              *)
EXTENDS Persistence, TLC, Json
CONSTANTS N, Values
VARIABLES ev, disk      \* disk: the dict which the updates built, or <<>>
mvars == <<vars, ev, disk>>
Init == objs = [k \in 1 .. N |-> Fresh("c", k)] /\ rc = [k \in 1 .. N |-> 0] /\ stores = <<>> /\ subs = <<>>
        /\ ev = [in |-> [op |-> "init"], out |-> [val |-> 0]] /\ disk = <<>>
Free == {x \in 1 .. N : objs[x].parent = 0 /\ rc[x] = 0}
Inputs ==
  {[op |-> "setp", o |-> o, name |-> "p", x |-> x] : o \in 1 .. N, x \in {-1} \cup Values}
  \cup {[op |-> "seti", o |-> o, name |-> "i", x |-> x] : o \in 1 .. N, x \in {0} \cup Free}
  \cup UNION {{[op |-> "ins", o |-> o, name |-> "s", i |-> i, x |-> x] : i \in 0 .. Len(objs[o].rels[1]), x \in Free} : o \in 1 .. N}
  \cup UNION {{[op |-> "rem", o |-> o, name |-> "s", x |-> x] : x \in ToSet(objs[o].rels[1])} : o \in 1 .. N}
  \cup (IF objs[1].parent # 0 THEN {} ELSE IF rc[1] # 0 THEN {} ELSE {[op |-> "ctx", o |-> 1, c |-> 1, miss |-> ""]})
Able(in) == IF in.op \in {"seti", "ins"} /\ in.x # 0 THEN in.o \notin Below(objs, in.x) ELSE IF in.op = "seti" THEN objs[in.o].items[1] # 0 ELSE TRUE

(* the path of an object in storage: <<"i">>, <<"r", index>> from the root *)
RECURSIVE Path(_, _)
Path(O, x) == IF O[x].parent = 0 THEN <<>>
  ELSE LET p == O[x].parent IN Path(O, p) \o <<IF O[x].slot = "i" THEN 0 ELSE CHOOSE k \in 1 .. Len(O[p].rels[1]) : O[p].rels[1][k] = x>>
Delete(q, i) == SubSeq(q, 1, i) \o SubSeq(q, i + 2, Len(q))
Edit(d, e) == CASE e[1] = "set" -> [d EXCEPT ![e[2]] = e[3]]
                [] e[1] = "ins" -> [d EXCEPT ![5] = <<<<"ss", Put(d[5][1][2], e[2], e[3])>>>>]
                [] e[1] = "rem" -> [d EXCEPT ![5] = <<<<"ss", Delete(d[5][1][2], e[2])>>>>]
RECURSIVE At(_, _, _)
At(d, path, e) == IF path = <<>> THEN Edit(d, e)
  ELSE IF Head(path) = 0 THEN [d EXCEPT ![4] = <<<<"i", At(d[4][1][2], Tail(path), e)>>>>]
  ELSE [d EXCEPT ![5] = <<<<"ss", [d[5][1][2] EXCEPT ![Head(path)] = At(d[5][1][2][Head(path)], Tail(path), e)]>>>>]
Updated(in, O2) ==
  IF in.op = "ctx" THEN IF in.c = 0 THEN disk ELSE Dict(objs, 1)
  ELSE IF rc[1] = 0 \/ Root(objs, in.o) # 1 THEN disk
  ELSE At(disk, Path(O2, in.o),
          CASE in.op = "setp" -> <<"set", 3, IF in.x = -1 THEN <<>> ELSE <<<<"pk", in.x>>>>>>
            [] in.op = "seti" -> <<"set", 4, IF in.x = 0 THEN <<>> ELSE <<<<"i", Dict(O2, in.x)>>>>>>
            [] in.op = "ins" -> <<"ins", in.i, Dict(O2, in.x)>>
            [] in.op = "rem" -> <<"rem", (CHOOSE k \in 1 .. Len(objs[in.o].rels[1]) : objs[in.o].rels[1][k] = in.x) - 1>>)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Sort2(q) == SortSeq(q, LAMBDA a, b : a[1] < b[1])
Look(in) ==
  LET O2 == After(objs, in)
      R2 == IF in.op = "ctx" THEN [rc EXCEPT ![in.o] = in.c] ELSE rc
      S2 == IF in.op = "ctx" THEN IF in.c = 0 THEN [stores EXCEPT ![1].on = FALSE] ELSE <<[root |-> 1, on |-> TRUE, dict |-> Dict(objs, 1), miss |-> ""]>>
            ELSE [k \in 1 .. Len(stores) |-> IF stores[k].on THEN [stores[k] EXCEPT !.dict = Dict(O2, 1)] ELSE stores[k]]
      Was(x) == Ctx(objs, rc, x) Is(x) == Ctx(O2, R2, x)
      gone == Asc({x \in 1 .. N : Was(x) # 0 /\ Is(x) = 0}) come == Asc({x \in 1 .. N : Was(x) = 0 /\ Is(x) # 0})
  IN [objs |-> O2, stores |-> S2, ctxs |-> [x \in 1 .. N |-> Is(x)], regd |-> <<Asc(InCtx(O2, R2, 1)), <<>>>>,
      events |-> [k \in 1 .. Len(gone) |-> <<1, -1, gone[k], 1>>] \o [k \in 1 .. Len(come) |-> <<1, 1, come[k], 1>>], told |-> <<>>, rcalls |-> <<>>, own |-> Sort2([k \in 1 .. Len(gone) |-> <<gone[k], 0>>] \o [k \in 1 .. Len(come) |-> <<come[k], 1>>]), times |-> TRUE,
      more |-> IF Changes(in) THEN Asc(Above(objs, in.o)) ELSE <<>>, odd |-> <<>>, calls |-> IF Changes(in) THEN Calls(in) ELSE <<>>,
      val |-> 0, refused |-> FALSE, dict |-> <<>>]
Next == \E in \in Inputs : Able(in) /\ LET o == Look(in) IN Do(in, o) /\ ev' = [in |-> in, out |-> o] /\ disk' = Updated(in, After(objs, in))
St == <<objs, rc, stores>>
Emit == PrintT("EDGE " \o ToJson(<<St, ev', <<objs', rc', stores'>>>>))
Spec == Init /\ [][Next]_mvars
Mirrors == (stores # <<>> => disk = stores[1].dict) /\ (rc[1] # 0 => disk = Dict(objs, 1))
Tree == WellFormed(objs) /\ \A x \in 1 .. N : Ctx(objs, rc, x) = (IF 1 \in Above(objs, x) THEN rc[1] ELSE 0)
=============================================================================
