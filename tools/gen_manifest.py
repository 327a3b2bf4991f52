#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..'))
sys.dont_write_bytecode = True
from sa.tech import TECH                                       # noqa: E402
NOTE = ('Not a proof: every obligation is decided for all values of the opaque '
        'inputs (both branches of every open condition are followed) but for '
        'the enumerated tree shapes, configurations and operation sequences '
        'only (DESIGN.md lists the bounds). Trusted: the abstract '
        'interpreter\'s semantics of Python and its summaries of numpy, h5py, '
        'scipy.io, json, hashlib, os and datetime. Undecidable obligations '
        'are reported as undecided, never as violations.')
NA = [
 ('C40', 'Crash atomicity of a save depends on what numpy.savez, scipy.io.savemat and HDF5 have written when the process stops; dsch writes onto the target file itself, so the property does not even hold today, and no static argument over dsch\'s sources decides the state of the half-written file.'),
 ('C41', 'Bit-exactness is decided inside the compiled code of numpy, scipy and HDF5 for runtime values; statically only the path of the value through dsch can be followed, which C19 and C20 claim.'),
 ('C42', 'Which code points the storage libraries can encode is decided by third-party code on runtime text (numpy and MATLAB strings are known to drop trailing NULs); the path of a text through dsch is covered by C19.'),
 ('C43', 'Quantifies over interleavings of processes and over the locking done inside HDF5; dsch itself contains no synchronisation whose use could be checked.'),
 ('C44', 'Which names a file format can hold (MATLAB: 31 or 63 characters, no leading underscore; zip member names; HDF5 link names) is a property of the third-party writers; dsch imposes no restriction that could be checked against the formats, and the property is known not to hold.'),
]
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')


def main():
    ids = [json.loads(x)['id'] for x in
           open(os.path.join(HERE, 'properties.jsonl'))]
    na = {p for p, _ in NA}
    assert set(ids) == na | set(TECH), set(ids) ^ (na | set(TECH))
    m = {'version': 1,
         'setup_cmd': 'python3 check.py --selftest',
         'checks': [{'property': p,
                     'quick_cmd': 'python3 check.py ' + p,
                     'thorough_cmd': 'python3 check.py %s --tier thorough' % p,
                     'technique': TECH[p],
                     'level': 'other',
                     'level_note': NOTE} for p in ids if p in TECH],
         'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
         'notes': 'Standard-library Python only; the checker parses '
                  '/repo/dsch with ast on every run and never imports or '
                  'executes it. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
