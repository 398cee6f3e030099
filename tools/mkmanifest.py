"""Writes /verif/MANIFEST.json from the list of claimed checks below."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
TLA = 'TLA+ specification checked with TLC; '
CLAIMS = {}
def claim(pid, how, note, level='model_checking'):
    CLAIMS[pid] = dict(property=pid, quick_cmd=f'./check {pid} quick', thorough_cmd=f'./check {pid} thorough',
                       technique=TLA + how, level=level, level_note=note)
REPLAY = 'every transition of the bounded model (quick: a covering sample) replayed on the real code with full state comparison'
exec((V / 'tools' / 'claims.py').read_text())
props = [json.loads(l)['id'] for l in (V / 'properties.jsonl').read_text().splitlines()]
NA = globals().get('NA', {})
m = dict(version=1, setup_cmd='true',
         checks=[CLAIMS[p] for p in props if p in CLAIMS],
         not_applicable=[dict(property=p, reason=NA.get(p, 'Check not built yet.')) for p in props if p not in CLAIMS])
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(CLAIMS), 'claimed')
