"""Writes MANIFEST.json from the list of implemented checks."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded histories of saving programs on a simulated disk with kills at system calls and steps; every stored content and every load judged "
            "against a register model of the saves", "searches sampled histories and kill points of up to four programs; bounded to lattices of at most 9 sites, and up to 16 sites in sectors of few states"),
    "C02": ("seeded kills, power losses, I/O errors, short writes, full disks and interleavings inside saves; content judged after every system call "
            "against a register model", "samples fault positions and interleavings; power loss keeps an arbitrary prefix of the metadata journal and any part of unsynced data"),
    "C03": ("seeded sweeps killed, interrupted, stalled or hit by errors at system calls and lines and rerun by new programs; every stored sector judged against "
            "an independent Hamiltonian and eigensolution", "samples fault positions and histories; lattices of at most 9 sites (up to 16 with few electrons) and sectors of small dimension"),
    "C04": ("seeded histories of saves of easily confused configurations followed by later stages under kills and errors; inputs of each stage identified by "
            "comparing its products with every stored candidate", "samples histories of up to a dozen stored results"),
    "C05": ("seeded interleavings of up to four threads, interrupts, kills and histories around computations; every basis and Hamiltonian compared with an "
            "independent model of the extended t-J Hamiltonian", "samples schedules preempted at calls and lines; lattices of at most 9 sites, and up to 16 sites in sectors of few states"),
    "C06": ("the random starts, guesses and LAPACK failures of the diagonaliser are drawn by the simulator; results compared with dense eigensolution, rare misses "
            "decided by reseeded re-executions", "samples starts; the published algorithm misses a state with probability about 1/19000, so misses count only above that rate or when persistent"),
    "C07": ("seeded histories, interleavings and faults around spin numbers and site probabilities; each recorded number recomputed from the stored vector with "
            "independent operators", "samples histories and schedules; lattices of at most 9 sites, and up to 16 sites in sectors of few states"),
    "C08": ("seeded random starts, kills, interrupts and faults inside Neel embeddings; iterations followed by an independent mean-field model",
            "samples starts and fault positions; ambiguous stops within the solver's error are not judged"),
    "C09": ("seeded random starts, kills, interrupts and faults inside block embeddings; results tested for self-consistency with an independent mean field",
            "samples starts and fault positions; 2x2 blocks and chains"),
    "C10": ("simulated monotonic, wall and CPU clocks; seeded stalls and wall-clock jumps at counted steps, attributed to the phase by the simulator's "
            "record of the running call stack, and compared with the recorded times", "samples stall positions, jumps and histories; phases are told apart by the published entry points"),
    "C11": ("seeded interrupts and allocation failures at any call, loop or line of an operation, then a retry in the same process; inputs snapshotted, results "
            "judged by independent models", "samples interruption points and histories"),
    "C12": ("seeded interleavings of up to four caller threads and histories of calls; each result judged by independent models, inputs and earlier results by snapshots",
            "samples schedules preempted at calls and lines (and thread switches at system calls)"),
    "C13": ("seeded generations of figures from stored results under kills, I/O errors, interleaved programs and directory races; what reaches the plotting "
            "library is recorded and compared with independent recomputations from the stored content", "drawing library replaced by a recorder; rendering itself is not checked"),
    "C14": ("seeded failures of system calls, LAPACK calls and allocations, damaged files; an operation may only raise or complete correctly, and must succeed "
            "once the fault has gone, in the same and in a new program", "samples failing calls and damages; damaged files that still parse as a result are out of reach"),
}
NA = {
    "C15": "pure function of its input: no schedule, clock, I/O, fault or history for a simulator to decide (exercised indirectly by C05)",
    "C16": "pure function of its input: no schedule, clock, I/O, fault or history for a simulator to decide (exercised indirectly by C05, C08 and C09)",
    "C17": "pure function of its input: no schedule, clock, I/O, fault or history for a simulator to decide (exercised indirectly by C09)",
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for i in ids:
        if i in CHECKS:
            t, n = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
                           "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH + t, "level": "exploration", "level_note": n})
    na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in CHECKS]
    body = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --self-test",
            "hooks": {"guard": "none", "enable": "no hooks: the simulator replaces files, clocks, randomness, locks and the thread scheduler from outside /repo",
                      "source_commits": []},
            "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(body, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
