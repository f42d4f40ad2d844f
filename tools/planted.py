#!/opt/venv/bin/python
"""Run the checks against the planted changes, on a scratch copy of /repo.

    tools/planted.py [id ...]

Records in tools/planted.json which facets of the check of its property
report each change.  Nothing that MANIFEST.json registers uses this program.
"""
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
RECORD = HERE / 'planted.json'


def main(names):
    record = json.loads(RECORD.read_text()) if RECORD.exists() else {}
    seeded = sorted(p.name for p in (VERIF / 'seeded').iterdir())
    record = {k: v for k, v in record.items() if k in seeded}
    for name in names or seeded:
        folder = VERIF / 'seeded' / name
        meta = json.loads((folder / 'meta.json').read_text())
        top = tempfile.mkdtemp(prefix='planted-')
        try:
            copy = os.path.join(top, 'repo')
            shutil.copytree('/repo', copy, symlinks=True)
            subprocess.run(['git', 'checkout', '-q', '.'], cwd=copy,
                           check=True)
            subprocess.run(['git', 'apply', str(folder / 'patch.diff')],
                           cwd=copy, check=True)
            run = subprocess.run(
                [str(VERIF / 'run.py'), 'check', meta['property'], 'quick'],
                env={**os.environ, 'VERIF_REPO': copy}, text=True,
                capture_output=True)
        finally:
            shutil.rmtree(top)
        facets = sorted(set(re.findall(
            r'VIOLATION property=\S+ replay=\S*/P\d\d-(\w+)\.json', run.stdout)))
        record[name] = {'property': meta['property'], 'exit': run.returncode,
                        'facets': facets}
        print(name, meta['property'], run.returncode, facets, flush=True)
        if run.returncode != 1:
            print(run.stdout[-500:])
        RECORD.write_text(json.dumps(record, indent=1, sort_keys=True) + '\n')


if __name__ == '__main__':
    main(sys.argv[1:])
