SPECIFICATION Spec
CONSTANTS
 DefSchemes <- D2
 DefEmacsArgs <- D2
 DefFirefox <- D3
 DefChrome <- D4
 AppName = "io.x"
 Mutant = "none"
INVARIANTS AsDemanded Consistent
CHECK_DEADLOCK FALSE
