// Which scenarios decide which property.
#include "harness.h"
static const PropDef props[] = {
	{"E01", {{1, "ech"}}, {}, "one run: one spasm_echelonize call; counted non-trivial when the matrix has an entry."},
	{"E02", {{1, "echL"}}, {}, "one run: one spasm_echelonize call with L; counted non-trivial when the matrix has an entry."},
	{"P03", {{1, "pivots"}}, {}, "one run: one to five pivot searches; non-trivial when the matrix has at least two entries."},
	{"S04", {{1, "schur"}}, {}, "one run: one sparse Schur complement; non-trivial when the result has an entry."},
	{"S05", {{1, "schurd"}, {1, "schurr"}}, {}, "one run: one dense or one or two randomized Schur complements; non-trivial when the result is nonempty."},
	{"R06", {{1, "rref"}}, {}, "one run: one RREF; non-trivial when the rank is positive."},
	{"K07", {{1, "kernel"}}, {}, "one run: one kernel; non-trivial when rank and kernel are both nonzero."},
	{"V08", {{1, "gesv"}}, {}, "one run: a set of right-hand sides; non-trivial when there is one and the rank is positive."},
	{"C09", {{1, "cert"}}, {}, "one run: certificate created, verified, saved, loaded, verified again; non-trivial when the rank is positive."},
	{"C10", {{1, "certmut"}}, {}, "one run: one altered or mismatched certificate or factorization."},
	{"I12", {{1, "load"}}, {}, "one run: one well-formed text loaded and compressed; non-trivial when it lists an entry."},
	{"I13", {{1, "badload"}}, {}, "one run: one damaged text or failing stream; non-trivial unless the reference reader gives no opinion."},
	{"I14", {{1, "roundtrip"}}, {}, "one run: one matrix saved and loaded back; non-trivial when it has an entry."},
	{"F20", {{1, "tool"}}, {}, "one run: one program invocation (two for certificates); non-trivial when the input lists an entry."},
	{"O15", {{1, "toolout"}}, {}, "one run: one program invocation whose output fails; non-trivial when the failure was reached."},
	{"D11", {{3, "certfile"}, {2, "certload"}}, {}, "one run: a certificate is written (by rank -c or by the library), the disk or a stream damages it, check_cert or the library decides."},
	{"W29", {{1, "chain"}}, {}, "one run: two or three programs chained, the output of one being the input of the next, with at most one stage cut short; non-trivial when an input lists an entry."},
	{"A16", {{4, "ech"}, {4, "echL"}, {1, "pivots"}, {2, "schur"}, {2, "schurd"}, {1, "schurr"}, {2, "rref"}, {2, "kernel"}, {2, "gesv"}, {2, "cert"}, {2, "load"}, {1, "roundtrip"}, {5, "tool"}, {2, "multi"}}, {}, "one run: one operation or program during which chosen allocations fail; non-trivial as in the scenario, or when the process stopped."},
	{"M17", {{6, "ech"}, {6, "echL"}, {2, "pivots"}, {3, "schur"}, {3, "schurd"}, {1, "schurr"}, {3, "rref"}, {3, "kernel"}, {2, "gesv"}, {2, "cert"}, {1, "certmut"}, {1, "load"}, {2, "badload"}, {1, "roundtrip"}, {4, "tool"}, {1, "certfile"}, {2, "multi"}}, {"mem:", "crash:"}, "one run: any scenario with every access of the code under test checked against the live blocks; non-trivial as in the scenario."},
	{"T18", {{1, "multi"}}, {}, "one run: two or three concurrent callers sharing a matrix and a factorization; non-trivial when the matrix has an entry."},
	{"H28", {{3, "ech"}, {3, "echL"}, {2, "pivots"}, {2, "schur"}, {2, "schurd"}, {2, "schurr"}, {2, "rref"}, {2, "kernel"}, {3, "gesv"}, {2, "cert"}, {1, "certmut"}, {1, "load"}, {1, "roundtrip"}, {1, "multi"}}, {}, "one run: one to four earlier operations in the process, then one operation; non-trivial as in the scenario."},
	{"N27", {{3, "ech"}, {3, "echL"}, {1, "pivots"}, {2, "schur"}, {1, "schurd"}, {1, "schurr"}, {2, "rref"}, {2, "kernel"}, {2, "gesv"}, {2, "cert"}, {1, "certmut"}, {1, "load"}, {1, "roundtrip"}, {2, "multi"}}, {"leak"}, "one run: eight repetitions of one operation in one process, results released; non-trivial as in the scenario."},
	{"L19", {{6, "ech"}, {6, "echL"}, {2, "pivots"}, {3, "schur"}, {1, "schurd"}, {2, "schurr"}, {3, "rref"}, {3, "kernel"}, {1, "gesv"}, {2, "cert"}, {1, "badload"}, {3, "tool"}, {2, "multi"}}, {"hang", "deadlock"}, "one run: any scenario under a bound on the number of simulated steps and deadlock detection; non-trivial as in the scenario."},
};
const PropDef *find_prop(const std::string &id) { for (auto &p : props) if (id == p.id) return &p; return nullptr; }
