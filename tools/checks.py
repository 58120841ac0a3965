"""Per-property check configuration."""
MATRIX = "h_matrix.cpp"
CHECKS = {}


def c(pid, src, defs=(), **kw):
    CHECKS[pid] = dict(src=src, defs=["-DPROP=%d" % int(pid[1:])] + list(defs), **kw)


for p in ("C07", "C18", "C19", "C20", "C21", "C23", "C28"):
    c(p, MATRIX)
for p in ("C01", "C02", "C03", "C04", "C06"):
    c(p, "h_qc.cpp")
for p in ("C08", "C09", "C10", "C11", "C12", "C27"):
    c(p, "h_readers.cpp")
c("C13", "h_readers.cpp", level="fault_enumeration",
  rule="every prefix (every byte offset) of each generated log and pun file; a case is the pair (file, offset), each is distinct and runs the reader on a different truncated file")
for p in ("C05", "C17"):
    c(p, "h_cli.cpp", main=True)
for p in ("C14", "C15", "C16"):
    c(p, "h_cli.cpp", main=True)
c("C26", "h_cli.cpp", main=True, level="fault_enumeration",
  rule="every fault of the menu, every ordered pair of faults, and every cut position of every input file; a case is the set of faults, each is distinct and runs calc_J's own main on different files or arguments")
c("C24", "h_str.cpp")
c("C22", "h_valid.cpp")
c("C25", "h_log.cpp", cli_levels={"VERIF_CALCJ%d" % n: n for n in range(4)},
  parts=[("log_probe.cpp", ("-Dcatnip=catnip_level_%d" % n, "-DLOG_LEVEL=%d" % n)) for n in range(4)])
