-------------------------------- MODULE Timed --------------------------------
(* Debounced and sampled streams of one input, on one event loop; time in ticks. A stream:                            *)
(*  [kind, period, open, latest (value of the input), dirty (a value came since it last fired),                       *)
(*   due (time of the next firing, or of the next sample), val (the value it holds), fired (time of its last firing)] *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES now, x, streams
vars == <<now, x, streams>>
Never == -1
Init0(cfg) == now = 0 /\ x = cfg.v /\ streams = <<>>
Ids == 1 .. Len(streams)

(* time passes up to a moment before which nothing has to be fired; samples without a new value pass unseen *)
RECURSIVE Passed(_, _)
Passed(s, at) == IF s.open /\ s.kind = "samp" /\ ~s.dirty /\ s.due < at THEN Passed([s EXCEPT !.due = @ + s.period], at) ELSE s
CanPass(s, at) == s.open => IF s.kind = "deb" THEN s.due = Never \/ s.due >= at ELSE ~s.dirty \/ s.due >= at
Pass(at) == at >= now /\ (\A s \in Ids : CanPass(streams[s], at)) /\ now' = at
After(at) == [s \in Ids |-> Passed(streams[s], at)]

Create(at, kind, period) ==
  /\ Pass(at) /\ UNCHANGED x
  /\ streams' = Append(After(at), [kind |-> kind, period |-> period, open |-> TRUE, latest |-> x, dirty |-> TRUE, due |-> at + period, val |-> x, fired |-> Never])
Arrive(s, v, at) ==
  IF ~s.open THEN s
  ELSE IF s.kind = "samp" THEN [s EXCEPT !.latest = v, !.dirty = TRUE]
  ELSE [s EXCEPT !.latest = v, !.dirty = TRUE, !.val = v, !.due = IF @ = Never THEN at + s.period ELSE @]
(* a value that comes at the very end of a period without other values may belong to the next *)
Change(at, v) == Pass(at) /\ x' = v /\
  LET S == After(at) IN \E late \in SUBSET {s \in Ids : S[s].kind = "samp" /\ ~S[s].dirty /\ S[s].due = at} :
    streams' = [s \in Ids |-> Arrive(IF s \in late THEN [S[s] EXCEPT !.due = @ + S[s].period] ELSE S[s], v, at)]
Close(at, k) == Pass(at) /\ UNCHANGED x /\ streams' = [After(at) EXCEPT ![k].open = FALSE]
Fire(at, k, v) ==
  /\ Pass(at) /\ UNCHANGED x
  /\ LET S == After(at) s == S[k] IN
     /\ s.open /\ s.dirty /\ s.due = at /\ v = s.latest
     /\ streams' = [S EXCEPT ![k] = [s EXCEPT !.dirty = FALSE, !.val = v, !.fired = at, !.due = IF s.kind = "deb" THEN Never ELSE at + s.period]]
(* nothing more happened up to now; vals: what the streams hold; tasks: those left on the loop, if all streams are closed *)
Look(at, vals, tasks) ==
  /\ Pass(at) /\ UNCHANGED x /\ streams' = After(at)
  /\ \A s \in Ids : streams[s].open => vals[s] = streams[s].val
  /\ (\A s \in Ids : ~streams[s].open) => tasks = 0
=============================================================================
