"""Which generators, recorders, specification modules and finite models decide each property."""
CORE = ["ops_core"]
CHECKS = {
 "C01": dict(runs=[dict(gen="GenC01", check="C01", tus=CORE)]),
 "C02": dict(runs=[dict(gen="GenC02", check="C02", tus=CORE)]),
 "C03": dict(runs=[dict(gen="GenC03", check="C03", tus=CORE)]),
 "C04": dict(runs=[dict(gen="GenC04", check="C04", tus=["ops_table"])]),
 "C06": dict(runs=[dict(gen="GenC06", check="C06", tus=["ops_builtin"])]),
 "C07": dict(runs=[dict(gen="GenC07", check="C07", tus=["ops_builtin"])]),
 "C08": dict(runs=[dict(gen="GenC08", check="C08", tus=["ops_builtin"])]),
 "C05": dict(runs=[dict(gen="GenC05", check="C05", tus=CORE)]),
 "C09": dict(runs=[dict(gen="GenC09", check="C09", tus=["ops_text"])]),
 "C10": dict(runs=[dict(gen="GenC10", check="C10", tus=["ops_text"])]),
 "C11": dict(runs=[dict(gen="GenC11", check="C11", tus=["ops_text"])]),
 "C13": dict(runs=[dict(gen="GenC13", check="C13", tus=["ops_prog"])]),
 "C14": dict(runs=[dict(gen="GenC14", check="C14", tus=["ops_prog"])]),
 "C15": dict(runs=[dict(gen="GenC15", check="C15", tus=["ops_big"], config="d6001"),
                   dict(gen="GenC15", check="C15", tus=["ops_big"], config="d20011", backends=["efx"]),
                   dict(gen="GenC15", check="C15", tus=["ops_big"], config="pi", backends=["efx"], thorough=True)]),
 "C16": dict(runs=[dict(gen="GenC16", check="C16", tus=["ops_elem"])]),
 "C17": dict(runs=[dict(gen="GenC17", check="C17", tus=["ops_elem"])]),
 "C18": dict(runs=[dict(gen="GenC18", check="C18", tus=["ops_elem"])]),
 "C19": dict(runs=[dict(gen="GenC19", check="C19", tus=["ops_elem"])]),
 "C20": dict(runs=[dict(gen="GenC20", check="C20", tus=["ops_cplx"])]),
 "C21": dict(runs=[dict(gen="GenC21", check="C21", tus=["ops_cplx"])]),
 "C22": dict(runs=[dict(gen="GenC22", check="C22", tus=["ops_spec"])]),
 "C24": dict(runs=[dict(gen="GenC24", check="C24", tus=["ops_spec"])]),
 "C25": dict(runs=[dict(gen="GenC25", check="C25", tus=["ops_spec"])]),
 "C26": dict(runs=[dict(gen="GenC26", check="C26", tus=["ops_spec"])]),
 "C27": dict(runs=[dict(gen="GenC27", check="C27", tus=["ops_const"], config=c) for c in ("d30", "d47", "std", "d300", "d1000", "d1090")]
                 + [dict(gen="GenC27", check="C27", tus=["ops_const"], config=c, thorough=True) for c in ("d31", "d64", "d199", "d777", "d1009", "d1010", "d1200")]),
 "C28": dict(runs=[dict(gen="GenC28", check="C28", tus=["ops_array"], config="asan", backends=["efx"])],
             models=[dict(module="ArrayHeap", cfg="ArrayHeap.cfg")]),
 "C29": dict(runs=[dict(gen="GenC29", check="C29", tus=["ops_util"])]
                 + [dict(gen="GenC29", check="C29", tus=["ops_util"], config=c, backends=["efx"]) for c in ("d30", "d64", "d177", "d264", "d320")]),
 "C30": dict(runs=[dict(gen="GenC30", check="C30", tus=["ops_hist"])]),
 "C23": dict(runs=[dict(gen="GenC23", check="C23", tus=["ops_spec"], backends=["efx"])]),
 "C12": dict(runs=[dict(gen="GenC12", check="C12", tus=CORE)]),
}
NOT_APPLICABLE = {}
