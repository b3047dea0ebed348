"""What each property's check runs: (flavour, profile, runs)."""
def q(*parts): return list(parts)
CHECKS = {}
NOTES = {}
def check(pid, quick, factor=20, extra=(), boost=6):
    quick = [(f, p, n if p in ("HUGE", "BIG", "VAST") or p.startswith("LINE") else n * boost) for f, p, n in quick]
    CHECKS[pid] = {"quick": list(quick), "thorough": [(f, p, n * factor) for f, p, n in quick] + list(extra)}
D = "default"
check("C01", [(D, "FUNC", 12000), (D, "FAULT", 3000), (D, "INTER", 2000), ("intmin", "FUNC", 3000), ("tiny", "CAP", 1500), ("stable", "FUNC", 1000), (D, "LINESC", 150)])
check("C02", [(D, "FUNC", 14000), (D, "FAULT", 2000), ("intmin", "FUNC", 3000), (D, "INTER", 1500), (D, "LINESC", 150)])
check("C03", [(D, "HIER", 9000), (D, "HIFAULT", 3000), ("intmin", "HIER", 2000), ("tiny", "CAP", 1500), (D, "INTER", 1500), (D, "LINEHI", 200), ("release", "VAST", 6), ("wide", "CLAIM", 100)])
check("C04", [(D, "FAULT", 9000), (D, "HIFAULT", 4000), (D, "LIFEFAULT", 2500), ("ann", "FAULT", 2000), ("tiny", "CAP", 1500), (D, "LINE", 60)])
check("C05", [(D, "FAULT", 8000), (D, "HIFAULT", 4000), (D, "LIFEFAULT", 3000), (D, "BAD", 2000), ("tiny", "CAP", 1000), (D, "LINE", 60)])
check("C06", [(D, "FAULT", 8000), (D, "HIFAULT", 4000), (D, "LIFEFAULT", 3000), ("ann", "FAULT", 1500), ("ann", "BACKEND", 1500), (D, "BACKEND", 1500), ("tiny", "CAP", 1500), (D, "LINE", 60)])
check("C07", [(D, "FUNC", 5000), (D, "FAULT", 5000), (D, "HIER", 2500), (D, "HIFAULT", 2500), ("tiny", "CAP", 2500), (D, "LIFEFAULT", 1500), ("ann", "FAULT", 1000), ("ann", "BACKEND", 1000), (D, "STATS", 1500), ("stable", "FAULT", 800), (D, "LINE", 150)])
check("C08", [(D, "FUNC", 7000), (D, "FAULT", 4000), (D, "HIER", 2500), (D, "HIFAULT", 2000), ("intmin", "FUNC", 2000), ("tiny", "CAP", 1500), (D, "BAD", 1500), ("release", "HUGE", 60), (D, "LINESC", 100), (D, "LINEHI", 60)])
check("C09", [(D, "SPI", 12000), ("ann", "SPI", 3000)])
check("C10", [(D, "INTER", 10000), (D, "HIST", 3000), (D, "LIFEFAULT", 2500), ("ann", "INTER", 2000)])
check("C11", [(D, "FAULT", 5000), (D, "BAD", 6000), (D, "LIFEFAULT", 4000), (D, "HIFAULT", 2000), ("tiny", "CAP", 1500)])
check("C12", [(D, "BACKEND", 12000), ("ann", "BACKEND", 5000), ("intmin", "BACKEND", 3000)])
check("C13", [(D, "STATS", 12000), ("intmin", "STATS", 3000), (D, "LIFEFAULT", 2000), (D, "LINEOBJ", 150), ("release", "VAST", 6), ("wide", "CLAIM", 100)])
check("C14", [(D, "LIFE", 8000), (D, "LIFEFAULT", 5000), ("intmin", "LIFE", 2000), ("tiny", "CAP", 1500), ("wide", "CLAIM", 100), (D, "LINEOBJ", 150)])
check("C15", [(D, "BATCH", 12000), ("intmin", "BATCH", 2000), ("stable", "BATCH", 1500), (D, "LINESC", 150)])
check("C16", [(D, "FUNC", 14000), (D, "TINYFUNC", 4000), ("intmin", "FUNC", 2000), ("stable", "FUNC", 2000), (D, "FAULT", 2000), (D, "LINESC", 150)])
check("C17", [(D, "FUNC", 5000), (D, "FAULT", 5000), (D, "HIER", 3000), (D, "HIFAULT", 2000), ("release", "BIG", 60), (D, "LINESC", 80), (D, "LINEHI", 80)])
check("C18", [(D, "FUNC", 16000), ("intmin", "FUNC", 2000), ("stable", "FUNC", 1000), (D, "FAULT", 2000), (D, "LINESC", 150)])
check("C19", [("tiny", "CAP", 6000), ("release", "HUGE", 150), ("wide", "HUGE", 200), ("release", "BIG", 40), ("release", "VAST", 12), ("wide", "VAST", 6), ("release", "CLAIM", 100), ("wide", "CLAIM", 300), ("wide", "LIFE", 2000), (D, "LINESC", 100), (D, "LINEHI", 60), (D, "LINEOBJ", 60)])
check("C20", [(D, "FUNC", 16000), ("intmin", "FUNC", 2000), ("stable", "FUNC", 2000), (D, "FAULT", 2000), (D, "LINESC", 150)])
check("C21", [(D, "BAD", 14000), ("wide", "LIFE", 2000), (D, "LIFEFAULT", 2000), ("tiny", "CAP", 1000), ("intmin", "BAD", 2000)])
