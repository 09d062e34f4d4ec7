SPECIFICATION CSpec
CONSTANT Failing <- FailConstruct
POSTCONDITION AllJudged
CHECK_DEADLOCK FALSE
