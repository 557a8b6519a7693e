"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
NOTE = {
 'C01': 'Seeded search over client schedules on area sessions: every answer is compared with a fresh session for that distance. Sampled parameters, distances and orders; both line-of-sight, diffraction and scatter ranges are reached.',
 'C02': 'Seeded search over histories of preparations (both modes, any parameters changed) and queries on reused sessions, against brand-new sessions. Sampled.',
 'C03': 'Seeded search over histories with interrupts and several sessions; the indicator is compared with the running maximum of levels raised by each step alone in a fresh session. Sampled.',
 'C04': 'Interrupts (KeyboardInterrupt, MemoryError, ...) are injected at sampled lines and byte-code instructions of repository code; the step or run is repeated and every later answer compared with an undisturbed session.',
 'C05': 'Threads run real code under a baton scheduler that decides every switch between byte-code instructions or lines; results are compared with running alone in a fresh process. Sampled schedules with few preemptions as well as bursts.',
 'C06': 'Histories of jobs in one process, with failing jobs and with clock, entropy, random state, locale, working directory, gc and hash seed controlled by the simulator, against the same job in a fresh process.',
 'C07': 'Arguments of every call are compared before and after, for completed, failed and interrupted calls at sampled points.',
 'C08': 'File operations of csv_writer and of whole runs below a scratch folder get short writes, EINTR, ENOSPC, EIO, failing mkdir, open, close by a preloaded seam; success must mean a complete table.',
 'C09': 'The process is killed before, after or in the middle of sampled file operations; the file left is judged, and the run repeated.',
 'C10': 'Several processes run under a scheduler that decides the order of their file operations; outputs are compared with running alone.',
 'C11': 'As C08 and C09 for shapefiles written through fiona/GDAL, which runs for real; features read back by an independent reader process. Finding K2 (GDAL) is recognised and reported.',
 'C12': 'Elevation queries in a long-lived process with read faults, replaced, truncated, removed files and void cells; judged against the stored cells and a fresh process. Findings K1 and K3 (GDAL, rasterio) are recognised and reported.',
 'C13': 'Sequences of runner scripts in one working folder, killed or out of disk space at sampled operations, then undisturbed ones compared with a clean folder. Synthetic small input data.',
 'C14': 'Sessions are deep-copied, pickled, moved to other processes, or lost with their process in the middle of a call and restored from what was saved; all answers are compared with a session that was left alone. Sampled histories and points.',
 'C15': 'Whole predictions are started at sampled lines and byte-code instructions of another running one (and at lines that use module state), also nested; all results are compared with running alone in a fresh process.',
 'C16': 'Descriptors, threads, children, temporary files and process-wide settings are compared before and after calls that complete, fail on unusable input or storage errors, or are interrupted at sampled lines. Memory use is not judged.',
 'C17': 'Threads world with forks at scheduled points beside threads in the middle of calls, and pools of forked workers whose file operations are scheduled, also with a worker stalled for good; results are compared with running alone in a fresh process. Sampled.',
 'C18': 'Several identical writers (processes, threads, whole scripts) of one table, every file operation scheduled, over absent, shorter or longer earlier tables; the table left is compared with that of one run alone. Sampled. Shapefiles are not covered (GDAL itself does not allow it).',
 'C19': 'Whole runs with missing, empty or unreadable inputs and with short, failing reads and opens at sampled operations; success must mean the predictions and tables of the undisturbed run, failure must leave the earlier table, and the run is repeated with the inputs back. Synthetic inputs; the configuration file is not disturbed.',
}
NA = {
 'N01': 'A statement about the numerical algorithm for each single input: no schedule, fault, clock or history enters, so a simulator has nothing to decide; it needs a reference implementation or proof.',
 'N02': 'A pointwise order relation of a pure function of its arguments; no concurrency, time, I/O or history is involved.',
 'N03': 'Accuracy of two pure numerical functions over a real interval; nothing to schedule or to fail.',
 'N04': 'Correctness of a pure function of one profile; nothing to schedule or to fail.',
 'N05': 'Correctness of pure functions of one profile; nothing to schedule or to fail.',
 'N06': 'The level raised by one query alone is a pure table lookup; only its accumulation over histories (C03) has a behaviour to simulate.',
 'N07': 'Range and continuity of a pure function over its inputs; nothing to schedule or to fail.',
 'N08': 'Range of a pure function of one distance; nothing to schedule or to fail.',
 'N09': 'The plotting script cannot run with the installed pandas (sort_index(1)), and what it draws is a pure function of a table.',
}
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
assert set(ids) == set(NOTE) | set(NA), set(ids) ^ (set(NOTE) | set(NA))
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)',
                 'level': 'exploration', 'level_note': NOTE[i]} for i in ids if i in NOTE],
     'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
     'notes': 'No hooks in /repo: seams are the trace and profile hooks of the interpreter, fork, and a preloaded library. '
              'Replay a violation with ./replay <file>.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
