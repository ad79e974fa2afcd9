"""The opcode table: every byte, and the name table."""


def c15(rng, tier):
    return [{"dom": "opc", "op": "byte", "b": b} for b in range(256)] + [{"dom": "opc", "op": "map"}]
