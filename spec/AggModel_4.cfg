SPECIFICATION Spec
CONSTANTS N = 4
 Cyclic = FALSE
INVARIANTS SameNotion Once AfterDeps OnlyNeeded NeverStuck Reported Closed
PROPERTY Completes
CHECK_DEADLOCK FALSE
