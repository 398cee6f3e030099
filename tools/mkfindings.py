"""Write known_findings.json. Edit FIXED / KNOWN here."""
import json, pathlib, subprocess
log = {}
for line in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = line.split(' ', 1)
    log[s] = h
FIXED = [
 ('P01', 'fix: create the project script from the current template', 'creating any project raised ValueError (bad template substitution)'),
 ('P01', 'fix: update run-log paths when renaming a project', 'after Interface.rename the run log still named the old directories'),
 ('P03', 'fix: keep the settings of the original when copying a project', 'a copied project lost its input/output/log names'),
 ('P03', "fix: run with the project's own inputs directory and config name", 'run() ignored the inputs/config names the project was created with'),
 ('P02', 'fix: do not create a run directory when the config file does not exist', 'a refused run left a new empty directory'),
 ('P01', 'fix: allow renaming a run that has no log entry', 'mv of an unlogged run moved some directories, then raised KeyError'),
 ('P03', 'fix: update the name and attributes of a renamed project', 'handle kept stale name/attributes after rename'),
 ('P03', 'fix: compare projects by their attributes', 'two handles on one project compared unequal'),
 ('P04', 'fix: replace the run log and project settings atomically', 'a crash while writing lost the whole log or settings'),
 ('P01', 'fix: load only the file contents into a new log entry', 'RunLog.load nested the whole log inside the new entry'),
 ('P01', "fix: accept run names in the 'show' subcommand", "show -r NAME raised TypeError"),
 ('P03', 'fix: open a project where it is, not where it was created', 'a project whose directory was moved could not be opened'),
 ('P06', 'fix: give equal alias groups equal hashes', 'Group("a","b") == Group("b","a") but hashes differed'),
 ('P05', 'fix: register either all or none of the given aliases', 'alias(k, new, used) raised after attaching new'),
]
KNOWN = []
exec((pathlib.Path(__file__).parent / 'findings.py').read_text())
out = []
for i, (p, s, what) in enumerate(FIXED):
    assert s in log, s
    out.append(dict(id=f'F{i+1:02d}', property=p, status='fixed', commit=log[s], keys=[], what=f'fixed: property={p} {log[s]} {what}'))
for i, (p, keys, what) in enumerate(KNOWN):
    out.append(dict(id=f'K{i+1:02d}', property=p, status='known', keys=keys, what=what))
(pathlib.Path(__file__).parent.parent / 'known_findings.json').write_text(json.dumps(dict(findings=out), indent=1) + '\n')
print(len(FIXED), 'fixed', len(KNOWN), 'known')
