SPECIFICATION Spec
INVARIANTS ZBound XBound YBound Recycled Determined CoxAgrees Result Extractable
PROPERTIES Terminates ZShrinks YGrows
CHECK_DEADLOCK FALSE
