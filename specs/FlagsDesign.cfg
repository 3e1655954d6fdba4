SPECIFICATION Spec
CONSTANTS
 DefSchemes <- D1
 DefEmacsArgs <- D0
 Tokens = {"-log", "", "-", "a=b", "-disable-link-set", "--emacsarg=", "-emacsarg", "--scheme=x", "-scheme", "x.org", "-txt", "--org=y", "-emacsclient", "--"}
 MaxLen = 4
 Mutant = "none"
INVARIANTS RoundTrip Bare
CHECK_DEADLOCK FALSE
