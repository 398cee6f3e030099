"""usage: mkdemo.py ID PROPERTY 'needs' 'what it breaks' < demo.py: write seeded/ID/{demo.sh,demo.py,meta.json}"""
import json, pathlib, sys
id_, prop, needs, breaks = sys.argv[1:5]
d = pathlib.Path('/verif/seeded') / id_
d.mkdir(parents=True, exist_ok=True)
(d / 'demo.py').write_text(sys.stdin.read())
(d / 'demo.sh').write_text('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
''')
(d / 'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + '\n')
