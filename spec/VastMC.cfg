SPECIFICATION Spec
CONSTANTS MaxN = 14 MaxNs = 5
INVARIANT Agree
