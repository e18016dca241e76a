"""How many cases each check generates per process (eight processes)."""

# race: build with the race detector.  procs: GOMAXPROCS of each process.
PLAN = {
    "C01": {"quick": 4000, "thorough": 150000},
    "C02": {"quick": 4000, "thorough": 150000},
    "C03": {"quick": 6000, "thorough": 200000},
    "C04": {"quick": 5000, "thorough": 200000},
    "C05": {"quick": 2500, "thorough": 80000},
    "C06": {"quick": 4000, "thorough": 150000},
    "C07": {"quick": 3000, "thorough": 80000},
    "C08": {"quick": 10000, "thorough": 200000},
    "C09": {"quick": 5000, "thorough": 200000},
    "C10": {"quick": 6000, "thorough": 200000},
    "C11": {"quick": 5000, "thorough": 150000},
    "C12": {"quick": 10000, "thorough": 200000},
    "C13": {"quick": 3500, "thorough": 120000},
    "C14": {"quick": 1500, "thorough": 50000},
    "C15": {"quick": 2500, "thorough": 80000},
    "C16": {"quick": 2500, "thorough": 80000},
    "C17": {"quick": 1500, "thorough": 50000},
    "C18": {"quick": 300, "thorough": 10000, "race": True, "procs": 4,
            "assumptions": ["the race detector sees only the schedules that happened"]},
    "C19": {"quick": 3000, "thorough": 80000},
    "C20": {"quick": 2500, "thorough": 80000},
    "C21": {"quick": 2500, "thorough": 80000},
    "C22": {"quick": 2500, "thorough": 80000},
    "C23": {"quick": 3500, "thorough": 150000},
}
