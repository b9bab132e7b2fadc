CONSTANTS Cap = 2
  Threads = {t1, t2, t3}
  Texts = {1, 2, 3, 4}
  Confs = {1, 2}
  MaxMeasures = 6
SPECIFICATION Spec
INVARIANTS RightAnswers Coherent OneEach Bounded
PROPERTY Answered
CHECK_DEADLOCK FALSE
