#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification model-checked with TLC; TLC-generated cases replayed into the code; recorded traces checked against the specification by TLC'
COMMON = ('Holds for every operation recorded in this run: each result is decided by the TLA+ specification. Bounded: the cases named in '
          'coverage. Trusts the compiler, the driver that turns C objects into tokens (harness/drv.c), and TLC.')
NOTES = {
    'C01': 'SmlReader (the reader as a machine over a kernel that splits, interrupts and ends) is exhaustively checked against the relation SmlTransport within small bounds, '
           'including termination; the code is then run on TLC-generated lines with scripted short reads, EINTR, EAGAIN and on real pipes. ',
    'C02': 'As C01, with all byte strings of up to 7 bytes over {1b,01,00} (thorough: 9) as noise in front of frames. ',
    'C03': 'As C01, with every kind of broken frame, failure positions, and buffer sizes. ',
    'C16': 'Termination, memory safety and cursor for millions of inputs cannot be concluded; what was run was run under AddressSanitizer and UBSan, and its results were checked. ',
    'C17': 'Allocation and release are observed through sanitizer hooks for the blocks the library allocates. ',
    'C20': 'sml_server is run as a process under AddressSanitizer, on standard input, files and pipes; what it prints is decided by SmlServer. ',
    'C21': 'As C20, with every combination of options, damaged streams, and a terminal as the source. ',
    'C27': 'As C20, with argument lists enumerated by SmlGenCommand, pseudo terminals in all kinds of states, and pipes that pause. What a pseudo terminal does not have (parity, size of characters, RTS) is not observed. ',
    'C23': 'Interleavings by random behaviours of the interface; threads under ThreadSanitizer. ',
    'C26': 'Distinctness is checked within each run; across processes it rests on libuuid. ',
}
IDS = ['C%02d' % i for i in range(1, 29)]
NOT = {}


def main():
    checks = []
    for i in IDS:
        if i in NOT:
            continue
        checks.append({'property': i,
                       'quick_cmd': 'python3 tools/run.py --property %s' % i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/run.py --property %s' % i,
                       'technique': TECH, 'level': 'model_checking',
                       'level_note': NOTES.get(i, '') + COMMON})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NOT.items())],
         'notes': 'No hooks in /repo are needed: the driver links the library sources and observes them through the public interface, '
                  'linker wrapping of read, select, poll and write, and sanitizer malloc hooks.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
