SPECIFICATION NoStep
CONSTANT Q = 11
