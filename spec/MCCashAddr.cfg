SPECIFICATION Spec
INVARIANT CodecInv
