SPECIFICATION Spec
INVARIANT Recovered
INVARIANT Unspendable
