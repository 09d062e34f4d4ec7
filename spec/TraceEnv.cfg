SPECIFICATION CSpec
CONSTANT Failing <- FailEnv
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
