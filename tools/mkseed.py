"""Helper to write a planted bug: edits are (file, old, new) in /repo."""
import json
import os
import shutil
import subprocess
import tempfile
import textwrap


def seed(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, a, b in edits:
            p = w + '/r/' + f
            with open(p) as h:
                s = h.read()
            if s.count(a) != 1:
                print('NOT UNIQUE', id, f, repr(a), s.count(a))
                shutil.rmtree(d)
                return
            with open(p, 'w') as h:
                h.write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', w + '/r', 'diff'],
                              capture_output=True, text=True).stdout
        assert diff
    finally:
        shutil.rmtree(w)
    with open(d + '/patch.diff', 'w') as h:
        h.write(diff)
    with open(d + '/demo.py', 'w') as h:
        h.write(textwrap.dedent(demo).lstrip())
    with open(d + '/demo.sh', 'w') as h:
        h.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore '
                '"$(dirname "$0")/demo.py"\n')
    with open(d + '/meta.json', 'w') as h:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks':
                   breaks}, h, indent=1)
        h.write('\n')
