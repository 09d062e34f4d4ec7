SPECIFICATION CSpec
CONSTANT Failing <- FailSystem
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
