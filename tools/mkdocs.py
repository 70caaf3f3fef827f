#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import TABLE, NA

TECH = ('abstract interpretation over the LLVM IR of the current sources: inferred loop invariants and exact value sets give a '
        'transition graph, which is compared state by state with a specification; nothing is executed')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in TABLE:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p.get('over', ['inputs']), text=p['forall']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            fh.write(json.dumps(d) + '\n')
    na = {x['property'] for x in NA}
    man = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=NA)
    for p in TABLE:
        if p['id'] in na:
            continue
        man['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                                  thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                                  technique=p.get('tech', TECH), level='other',
                                  level_note=p.get('note', 'Sound static analysis with inferred invariants: covers inputs of every length and value; '
                                                   'an obligation the analysis cannot decide is reported in the evidence and raises no alarm.')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
