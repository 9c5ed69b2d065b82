--------------------------- MODULE TraceDiagram ----------------------------
(* Judges what the diagram and the listing script print (C33):
     f       the request (DiagramGen or a shipped solution)   err, lerr exceptions
     paths   lines drawn, each with its colour and its points in order
     labels  texts drawn              tics, range   the axis
     out     file the figure goes to  list          listed paths                *)
EXTENDS Diagram, Json, IOUtils
CONSTANT Prop
VARIABLES l, done
Trace == ndJsonDeserialize(IOEnv.TRACE)
Extra(a, b) == SelectSeq(a, LAMBDA x : Count(a, x) # Count(b, x))
Bag(name, got, want) == Fail(name, SameBag(got, want), <<"got", Extra(got, want), "want", Extra(want, got)>>)

Judge(r) ==
   LET f == r.f IN
   (IF r.err # "" THEN Fail("diagram.error", FALSE, <<r.err, f.name>>)
    ELSE Bag("diagram.path", r.paths, Paths(f)) \cup Bag("diagram.label", r.labels, AllLabels(f))
         \cup Bag("diagram.tics", r.tics, Tics(f)) \cup Fail("diagram.range", r.range = Range(f), <<r.range, Range(f)>>)
         \cup Fail("diagram.output", r.out = f.eps, <<r.out, f.eps>>)
         \cup Fail("diagram.unread", r.unread = <<>>, r.unread))
   \cup (IF r.lerr # "" THEN Fail("listing.error", FALSE, <<r.lerr, f.name>>)
         ELSE Bag("listing", r.list, Listing(f)))

Init == l \in DOMAIN Trace /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED l
        /\ \E bad \in {Judge(Trace[l])} : PrintT("V " \o ToJson([i |-> l, bad |-> bad]))
=============================================================================
