#!/usr/bin/env python3
"""Source of properties.jsonl, MANIFEST.json and props/index.json: edit here, then run  tools/spec.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []

TECH = 'symbolic execution of the real Python source, assertions decided by SMT (z3) plus a char/difference-bound decision layer'
NOTE = ('Every feasible execution path of the real functions within the stated bounds is executed with symbolic inputs and each assertion is decided for all '
        'values on that path; counterexamples and sampled path witnesses are re-executed on the unmodified sources. Trusts the str/bytes/re/int models '
        '(cross-checked against CPython by the self-test and by the witness replays) and z3. ')


def P(id, title, statement, over, text, why, files, mech, module, observe=(), state=(), note='', **idx):
    rec = dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
               anchors=dict(files=['big/' + f + '.py' for f in files.split()], mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        rec['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        rec['anchors']['observe_at'] = list(observe)
    rec['anchors']['hook_needed'] = None
    PROPS.append((rec, module, note, idx))


def not_applicable(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(VERIF, 'tools', 'spec_data.py')).read())


def design():
    import importlib
    import sys
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    from sx.registry import HARNESSES
    from oracles import ORACLE
    out = [open(os.path.join(VERIF, 'tools', 'design_head.md')).read().rstrip(), '']
    for rec, module, note, idx in PROPS:
        if module is None:
            continue
        p = rec['id']
        importlib.import_module('props.' + module)
        out += [f'### {p} {rec["title"]}', '', rec['statement'], '', f'* Why tests cannot settle it: {rec["why_tests_cant"]}',
                f'* Anchors: {"; ".join(m["where"] for m in rec["anchors"]["mechanism"])}', f'* Oracle: {ORACLE[p]}']
        for h in HARNESSES[p]:
            out.append(f'* Harness `{h.name}` ({h.fn.__module__.replace(".", "/")}.py), bounds: {h.bounds}.' + (f' Assumes: {"; ".join(h.assumes)}.' if h.assumes else ''))
        if note:
            out.append('* ' + note)
        out.append('')
    out += [open(os.path.join(VERIF, 'tools', 'design_outside.md')).read().rstrip(), '']
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    out += ['## Genuine defects found', '', 'Repaired (each one "fix:" commit in /repo; the checks report them again if they return):', '']
    out += [f'* {e["property"]} {e["commit"]}: {e["what"].split(" ", 3)[3]}' for e in kf if e['status'] == 'fixed']
    out += ['', 'Recorded, not repaired (known_findings.json):', '']
    out += [f'* {e["property"]} {e["id"]}: {e["what"]}' for e in kf if e['status'] == 'known']
    for rec, module, note, idx in PROPS:
        if module is None:
            out += ['', f'Not applicable: {rec["id"]} {rec["title"]}: {[x["reason"] for x in NA if x["property"] == rec["id"]][0]}']
    out += ['', '## Planted bugs', '', 'Each was confirmed in a scratch copy: it builds, passes the existing tests, its demonstration fails with it and passes without it (`tools/seed.py`).', '',
            '| bug | property | needs | caught by its quick check |', '|---|---|---|---|']
    sd = os.path.join(VERIF, 'seeded')
    res = json.load(open(os.path.join(VERIF, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(VERIF, 'tools', 'seed_results.json')) else {}
    for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, i, 'meta.json')))
        out.append(f'| {i} | {m["property"]} | {m["needs"]}: {m["what_it_breaks"]} | {res.get(i, "?")} |')
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for rec, *_ in PROPS:
            assert len(rec['title']) <= 80, rec['title']
            f.write(json.dumps(rec) + '\n')
    checks = []
    index = {}
    for rec, module, note, idx in PROPS:
        if module is None:
            continue
        p = rec['id']
        checks.append(dict(property=p, quick_cmd=f'./check {p}', thorough_cmd=f'./check {p} --tier thorough', technique=TECH,
                           level='model_checking', level_note=(NOTE + note).strip()))
        index[p] = dict(module='props.' + module, **idx)
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA,
               notes='Known findings and repaired defects are in known_findings.json; the engine is in sx/, the harnesses in props/.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(VERIF, 'props', 'index.json'), 'w') as f:
        f.write('{\n' + ',\n'.join(f' {json.dumps(k)}: {json.dumps(v)}' for k, v in sorted(index.items())) + '\n}\n')
    design()
    print(len(PROPS), 'properties', len(checks), 'checks')


main()
