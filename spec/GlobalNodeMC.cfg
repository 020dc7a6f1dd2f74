SPECIFICATION Spec
CONSTANTS N = 9
MaxGoals = 1
CONSTRAINT Small
INVARIANTS TempHasSuccessor TempsLead Halvings Step
PROPERTIES InOrder Flown NewGoalsWin
VIEW View
CHECK_DEADLOCK FALSE
