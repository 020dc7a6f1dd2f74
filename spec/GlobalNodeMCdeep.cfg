SPECIFICATION Spec
CONSTANTS N = 11
MaxGoals = 2
CONSTRAINT Small
INVARIANTS TempHasSuccessor TempsLead Halvings Step
PROPERTIES InOrder Flown NewGoalsWin
VIEW View
CHECK_DEADLOCK FALSE
