------------------------------- MODULE Models -------------------------------
(* Property models and stream value models, with observers which set the value again while they are notified.        *)
(* A value is 10 * number + object (equal objects have equal numbers), or -1 for None.                               *)
EXTENDS Integers, Sequences
VARIABLES cmp,     \* the comparison
          stream,  \* it is a stream value model (only set by its stream)
          hooked,  \* on_value_changed is set
          value,
          strm,    \* the last value of the stream
          open,
          stack    \* sets under way: [x, pc, ov: notifications due; cb: an observer is running]
vars == <<cmp, stream, hooked, value, strm, open, stack>>

Num(x) == x \div 10
Abs(n) == IF n < 0 THEN -n ELSE n
Same(c, x, y) ==
  IF x = -1 \/ y = -1 THEN x = y
  ELSE CASE c = "default" -> Num(x) = Num(y)
         [] c = "identity" -> x = y
         [] c = "mod2" -> Num(x) % 2 = Num(y) % 2
         [] c = "approx" -> Abs(Num(x) - Num(y)) <= 1
         [] c = "always" -> TRUE
         [] c = "never" -> FALSE

Init0(cfg) ==
  /\ cmp = cfg.cmp /\ stream = cfg.stream /\ hooked = FALSE /\ open = TRUE /\ stack = <<>> /\ strm = cfg.strm
  /\ value = IF cfg.stream /\ ~Same(cfg.cmp, cfg.strm, cfg.first) THEN cfg.strm ELSE cfg.first

Top == stack[Len(stack)]
Free == IF stack = <<>> THEN TRUE ELSE Top.cb
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]

(* `model.value = x`, or the stream has the value x *)
Begin(x) ==
  /\ Free
  /\ strm' = IF stream THEN x ELSE strm
  /\ LET change == open /\ ~Same(cmp, x, value) IN
     /\ value' = IF change THEN x ELSE value
     /\ stack' = Append(stack, [x |-> x, pc |-> change, ov |-> change /\ hooked, cb |-> FALSE])
  /\ UNCHANGED <<cmp, stream, hooked, open>>
PropertyChanged(key, seen) ==
  /\ stack # <<>> /\ Top.pc /\ ~Top.cb /\ key = "value" /\ seen = value
  /\ stack' = SetTop([Top EXCEPT !.pc = FALSE, !.cb = TRUE])
  /\ UNCHANGED <<cmp, stream, hooked, value, strm, open>>
OnValueChanged(arg, seen) ==
  /\ stack # <<>> /\ Top.ov /\ ~Top.cb /\ seen = value /\ arg \in {Top.x, value}
  /\ stack' = SetTop([Top EXCEPT !.ov = FALSE, !.cb = TRUE])
  /\ UNCHANGED <<cmp, stream, hooked, value, strm, open>>
Return ==
  /\ stack # <<>> /\ Top.cb
  /\ stack' = SetTop([Top EXCEPT !.cb = FALSE])
  /\ UNCHANGED <<cmp, stream, hooked, value, strm, open>>
End(seen) ==
  /\ stack # <<>> /\ ~Top.pc /\ ~Top.ov /\ ~Top.cb /\ seen = value
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ UNCHANGED <<cmp, stream, hooked, value, strm, open>>
Hook(on) == stack = <<>> /\ open /\ hooked' = on /\ UNCHANGED <<cmp, stream, value, strm, open, stack>>
Close == stack = <<>> /\ open /\ open' = FALSE /\ hooked' = FALSE /\ UNCHANGED <<cmp, stream, value, strm, stack>>
Look(seen) == Free /\ seen = value /\ UNCHANGED vars

Do(e) ==
  CASE e.e = "set" -> Begin(e.x)
    [] e.e = "pc" -> PropertyChanged(e.key, e.seen)
    [] e.e = "ov" -> OnValueChanged(e.arg, e.seen)
    [] e.e = "ret" -> Return
    [] e.e = "end" -> End(e.seen)
    [] e.e = "hook" -> Hook(e.on)
    [] e.e = "close" -> Close
    [] e.e = "look" -> Look(e.seen)
    [] OTHER -> FALSE
(* the value is always the same as the last one set, by the comparison *)
Follows == (stream /\ open) => Same(cmp, strm, value) \/ cmp = "never"
=============================================================================
