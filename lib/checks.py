# property -> harnesses (source, build variant) that decide it
S, D, K, R, X = "search_checks", "diagram_checks", "container_checks", "reuse_checks", "scale_checks"
CHECKS = {}
for p in ("C01", "C02", "C03", "C08", "C21"):
    CHECKS[p] = {"parts": [(S, "plain"), (X, "plain")], "level": "fault_enumeration" if p == "C03" else "model_checking"}
for p in ("C04", "C05", "C06", "C07", "C20"):
    CHECKS[p] = {"parts": [(D, "plain"), (X, "plain")], "level": "model_checking"}
for p in ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"):
    CHECKS[p] = {"parts": [(K, "plain"), (K, "asan"), ("long_checks", "plain"), ("long_checks", "asan")], "level": "model_checking"}
CHECKS["C19"] = {"parts": [(R, "debug"), (R, "plain"), (R, "fat"), (X, "plain"), (X, "fat")], "level": "model_checking"}
CHECKS["C22"] = {"parts": [("display_checks", "plain")], "level": "fault_enumeration"}
for p in ("C23", "C25", "C26", "C27"):
    CHECKS[p] = {"parts": [("struct_checks", "plain"), ("struct_checks", "asan")], "level": "model_checking"}
CHECKS["C24"] = {"parts": [("struct_checks", "plain")], "level": "model_checking"}
CHECKS["C28"] = {"parts": [("memory_checks", "count")], "level": "model_checking"}
