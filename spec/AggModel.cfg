SPECIFICATION Spec
CONSTANTS N = 3
 Cyclic = TRUE
INVARIANTS SameNotion Once AfterDeps OnlyNeeded NeverStuck Reported Closed
PROPERTY Completes
CHECK_DEADLOCK FALSE
