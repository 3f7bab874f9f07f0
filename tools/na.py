"""Properties not claimed, with the reason."""
_p="A pure function of its input: no schedule, clock, I/O, fault or shared history can change the outcome, so simulation has nothing to decide here (see DESIGN.md)."
_l="Simulation of this property is designed in DESIGN.md but not built yet."
NA=dict(N01=_p,N02=_p,N03=_p,N04="Policies are a stateless translation of one value and one constraint set, and only the box domain implements them: no schedule, fault or history enters.",
 N05="The OCaml and PPLite bindings cannot be built in this environment (no OCaml compiler with camlidl, no PPLite), so no simulator can execute them.",
 C16="What decides the outcome (garbage collector, cleaner threads, the Java half of each wrapper class) runs inside a JVM whose schedule cannot be put behind a seam here; a stand-in for the JVM would not execute the Java code the property is about. Observing a real JVM would be runtime monitoring, not simulation.")
