SPECIFICATION Spec
CONSTANT EmitFile = ""
INVARIANTS InvC01 InvC02 InvC03 InvC04 InvC05 InvC06 InvC07 InvC08 EmitC
PROPERTIES StepC06 StepC07 StepMono
CHECK_DEADLOCK FALSE
