SPECIFICATION MonSpec
CONSTANTS
  Judge <- JudgeX
  St0 <- StX
CHECK_DEADLOCK FALSE
