CONSTANTS Primes = {2, 3, 5, 7, 11, 13}
 Steps = 2
SPECIFICATION Spec
INVARIANTS Agree Laws IntAgree
CHECK_DEADLOCK FALSE
