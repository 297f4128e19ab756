#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = 'deterministic simulation with fault injection: '
base = ('Seeded search over simulated executions of the real compiler (wasm, real main, standard library and runtime); a clean batch is evidence, not proof. '
        'Trusts the in-memory operating system model, the instrumenter and the oracle. ')
C = {
 'C01': (T + 'seeded goroutine schedules, map orders, hash seeds and file system layouts; oracle: byte equality with the reference execution', ''),
 'C02': (T + 'seeded schedules over generated projects with planted errors; oracle: generator knows which errors exist and how they are reported', 'Only the error kinds of sim/host/errs.mjs and the invalid examples of the repository are planted.'),
 'C03': (T + 'errors of input system calls at seeded places; oracle: fault-free execution or a rejection', ''),
 'C04': (T + 'short reads and writes, EINTR, wrong sizes, other inode numbers, entry orders, links; oracle: byte equality', ''),
 'C05': (T + 'failed, partial and full-device writes, closes and opens of the outputs; oracle: exit 0 implies both outputs complete', ''),
 'C06': (T + 'kill at any system call and faults; oracle: file system image before and after', ''),
 'C07': (T + 'simulated wall clock with jumps; oracle: the values the clock showed, and equality of the rest', 'The operating system interface shows at most 2^64 ns (year 2554).'),
 'C08': (T + 'histories of library calls with edits between them; oracle: the same call in a fresh process', ''),
 'C09': (T + 'concurrent library calls under seeded schedules; oracle: the same call alone in a fresh process', ''),
 'C10': (T + 'seeded schedules with goroutines held at instrumented memory accesses (conflicting access while held = race)', 'A race is reported only when both accesses are in flight at once in the simulated execution.'),
 'C11': (T + 'seeded placements, links, mounts, inode numbers, entry orders; oracle: reference model of the project', ''),
 'C12': (T + 'seeded import graphs, ambiguous and missing imports, schedules; oracle: reference model of the project', ''),
 'C13': (T + 'files replaced atomically between any two system calls; oracle: one of the results of the combinations of old and new files', ''),
 'C14': (T + 'starving schedules, faults, adversarial inputs; oracle: bounded number of steps, no deadlock, no exhaustion', 'Steps are executed statements of the compiler.'),
 'C15': (T + 'failing standard error, -debug; oracle: byte equality of the result', ''),
 'C16': (T + 'seeded schedules and map orders over generated type hierarchies; oracle: reference model of instantiation', ''),
 'C17': (T + 'compilations killed at any system call, faults, power loss and edits, then a compilation on what they left; oracle: byte equality with a fresh tree', 'The dump file is the only state that survives; a kill takes effect between two system calls.'),
 'C18': (T + 'other compiler processes, complete or killed, between any two system calls of a compilation on the same file system; oracle: the same process alone', 'A process started within another one runs to its end or death before the other one continues.'),
 'C19': (T + 'rounds of library calls with failing calls, faults and schedules; oracle: open descriptors, goroutines, process settings and memory in use after every round equal those before', 'Memory is compared in executions without a perturbed schedule only.'),
}
P = 'No thread, timer, message, I/O or fault can influence it: one sequential computation over values already in memory. '
NA = {
 'C20': P + 'Register assignment is a pure function of the instantiated bus; that it is computed the same way in every execution is C01.',
 'C21': P + 'Block address assignment is a pure function of the instantiated bus; that it is computed the same way in every execution is C01.',
 'C22': P + 'The value of an expression is a pure function of its text and the symbols in scope; which symbols are in scope is covered by C12 and C16.',
 'C23': P + 'Acceptance by the grammar is a pure function of one text; that the verdict survives schedules, faults and truncation is C02, C03 and C13.',
 'C24': P + 'Property rules are a pure function of one functionality and its type chain; that rejected projects stay rejected in every execution is C02.',
 'C25': P + 'The identifier is a pure hash of the bus description; that it is the same in every execution is C01.',
 'C26': P + 'Argument parsing is a pure function of the argument list.',
}
props = {}
for l in open(os.path.join(os.path.dirname(__file__), '../properties.jsonl')):
    p = json.loads(l); props[p['id']] = p
for k in NA: assert k in props, k
assert set(props) == set(C) | set(NA), set(props) ^ (set(C) | set(NA))
m = {
 'version': 1,
 'setup_cmd': '/verif/setup',
 'hooks': {'guard': 'none in /repo: the instrumented sources are an overlay made from the working tree at check time', 'enable': '/verif/sim/instr writes overlay.json; GOOS=wasip1 GOARCH=wasm go build -overlay overlay.json ./cmd/fbdl', 'source_commits': []},
 'checks': [{'property': k, 'quick_cmd': f'/verif/check {k}', 'thorough_cmd': f'VERIF_TIER=thorough /verif/check {k}', 'technique': t, 'level': 'exploration', 'level_note': base + n} for k, (t, n) in C.items()],
 'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
 'notes': 'Replay of a violation: /verif/check --replay <file>.',
}
json.dump(m, open(os.path.join(os.path.dirname(__file__), '../MANIFEST.json'), 'w'), indent=1)
