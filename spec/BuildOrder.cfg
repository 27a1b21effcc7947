SPECIFICATION Spec
CONSTANTS
  Parts = {a, b, c}
  Links = {ab, bc}
  Ctrls = {ca}
INVARIANT Confluent
CHECK_DEADLOCK FALSE
