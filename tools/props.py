"""What decides each property."""
import gen_wire, gen_script, gen_int, gen_prov, gen_builder, gen_addr, gen_json, gen_ecc, gen_opc, gen_macro, gen_derive, gen_types, gen_spend, gen_values

DOMAINS = {"wire": "TraceWire", "script": "TraceScript", "int": "TraceInt", "prov": "TraceProv", "builder": "TraceBuilder",
           "addr": "TraceAddr", "hash": "TraceHash", "slp": "TraceSlp", "json": "TraceJson", "ecc": "TraceEcc",
           "opc": "TraceOpcode", "macro": "TraceMacro", "types": "TraceTypes", "spend": "TraceSpend",
           "val": "TraceValues"}
NOT_APPLICABLE = {}
COMMON = ("Exhaustive for the model within its constants; the code is judged on recorded executions (exhaustive small "
          "inputs from TLC plus seeded random ones), so code behaviour outside those inputs is not decided. Trusts TLC, "
          "rustc, and the harness's projection. ")

PROPS = {
    "C01": {"gen": [gen_wire.c01], "mc": ["MCWire"], "note": COMMON + "Hashes come from the JDK."},
    "C02": {"gen": [gen_wire.c02], "mc": ["MCWire"], "note": COMMON + "Vectors of zero-width items are outside the generated types."},
    "C03": {"gen": [gen_script.c03], "tla_gen": ["GenScript"], "mc": ["MCScript"], "note": COMMON},
    "C04": {"gen": [gen_script.c04], "mc": ["MCNumbers"], "note": COMMON},
    "C05": {"gen": [gen_int.c05], "tla_gen": ["MCInt"], "converted": ["MCInt"], "convert": gen_int.from_model, "note": COMMON},
    "C06": {"gen": [gen_prov.c06, gen_types.records], "tla_gen": ["MCProv"], "note": COMMON},
    "C07": {"gen": [gen_builder.c07], "tla_gen": ["MCBuilder"], "note": COMMON},
    "C08": {"gen": [gen_builder.c08], "tla_gen": ["MCSign"], "mc": [("MCSign", "MCSign_states.cfg")], "note": COMMON},
    "C09": {"gen": [gen_builder.c09, gen_types.scripts], "tla_gen": ["MCSighash"], "note": COMMON},
    "C20": {"gen": [gen_builder.c20], "tla_gen": ["MCBuilder"], "note": COMMON},
    "C10": {"gen": [gen_json.c10], "mc": [("MCJson", "MCJson_quick.cfg")], "mc_thorough": [("MCJson", "MCJson_thorough.cfg")], "note": COMMON},
    "C11": {"gen": [gen_json.c11], "tla_gen": ["MCJson"], "converted": ["MCJson"], "convert": gen_json.from_model, "note": COMMON},
    "C12": {"gen": [gen_addr.c12], "mc": ["MCCashAddr", ("MCAddrCode", "MCAddrCode_quick.cfg")],
            "mc_thorough": [("MCAddrCode", "MCAddrCode_thorough.cfg")], "note": COMMON},
    "C13": {"gen": [gen_addr.c13], "tla_gen": ["MCDest"], "note": COMMON},
    "C14": {"tla_gen": ["MCMacro"], "to_custom": ["MCMacro"], "custom": gen_macro.c14,
            "note": COMMON + "Functions that reach into the stack by a depth not taken from depth_of, retype items inside branches, reuse a name "
                    "for another type, or branch on computed values with uneven results are outside the specified fragment."},
    "C15": {"gen": [gen_opc.c15], "mc": ["MCOpcode"], "note": COMMON + "Signature checks are an oracle."},
    "C16": {"gen": [gen_addr.c16], "mc": ["MCSlp"], "note": COMMON},
    "C17": {"gen": [gen_addr.c17], "mc": ["MCHash"], "note": COMMON + "Digests come from the JDK and a Java RIPEMD-160 pinned to published vectors."},
    "C18": {"gen": [gen_ecc.c18], "custom": gen_ecc.c18_rust, "mc": [("MCEcdsa", "MCEcdsa_quick.cfg")],
            "mc_thorough": [("MCEcdsa", "MCEcdsa_thorough.cfg"), ("MCEcdsa", "MCEcdsa_thorough2.cfg")],
            "note": COMMON + "256-bit arithmetic comes from Java BigInteger; the scheme itself is checked exhaustively on small curves only."},
    "C19": {"gen": [gen_wire.c19], "mc": ["MCWire"], "custom": gen_derive.c19, "note": COMMON + "Struct declarations are seeded random ones, without generics (which the macro refuses)."},
    "C22": {"custom": gen_spend.c22, "mc": ["MCSpend"], "mc_thorough": [("MCSpend", "MCSpend_deep.cfg")],
            "note": COMMON + "Eleven fixed contracts with random terms stand for every contract; 256-bit arithmetic comes from Java BigInteger."},
    "C23": {"gen": [gen_values.c23], "mc": ["MCValues"], "note": COMMON + "Whether pushes of one byte string in different forms are equal is left open."},
    "C21": {"gen": [gen_types.c21], "mc": ["MCTypes"], "note": COMMON + "Converting a failed arithmetic result or a number outside the script range panics by contract and is not generated."},
}
