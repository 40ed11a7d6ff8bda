#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, terms=(), mech=(), technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note))


def na(id, title, statement, over, text, why, files, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=(), technique=None, note=None))
    NA.append((id, reason))


VG = 'value-graph abstract interpretation of the source, normal forms compared with the specified terms'
BASE_NOTE = ('Interprocedural abstract interpretation of /repo source with symbolic widths and operand values (merged at joins, no path '
             'enumeration, no solver); an obligation is discharged when the extracted and specified normal forms coincide on every path. '
             'Trusts the models of Python built-ins%s in hwsa/. A difference that the normaliser cannot separate is reported as undecided in '
             'the evidence, not as a violation.')
BV = 'hwtypes/bit_vector.py'
SMT = 'hwtypes/smt_bit_vector.py'
Z3 = 'hwtypes/z3_bit_vector.py'
ABC = 'hwtypes/bit_vector_abc.py'
UTIL = 'hwtypes/bit_vector_util.py'
ADT, META, ADTU, MODS, REB = 'hwtypes/adt.py', 'hwtypes/adt_meta.py', 'hwtypes/adt_util.py', 'hwtypes/modifiers.py', 'hwtypes/adt_util.py'
CL = 'whole-package abstract interpretation of client functions over symbolic arguments (kind-split value graph); failed rules are reported at the analysed construct'
CL_NOTE = ('The client functions in hwsa/fixtures are analysed together with /repo source by the abstract interpreter: arguments are symbolic '
           '(integers, Booleans, vectors of symbolic width, or an object of an unknown one of several classes), field shapes are enumerated '
           '(%s). Nothing is executed. Trusts the models of Python built-ins in hwsa/. What the normaliser cannot decide is reported as undecided, not as a violation.')

exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            f.write(json.dumps(d) + '\n')
    na_ids = {i for i, _ in NA}
    m = dict(version=1, setup_cmd='python3 -m compileall -q hwsa',
             checks=[dict(property=p['id'], quick_cmd='python3 -m hwsa %s --tier quick' % p['id'],
                          thorough_cmd='python3 -m hwsa %s --tier thorough' % p['id'],
                          evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other', level_note=p['note'])
                     for p in PROPS if p['id'] not in na_ids],
             not_applicable=[dict(property=i, reason=r) for i, r in NA],
             notes='All checks are static: hwsa/ reads /repo/hwtypes/*.py and never imports or runs it. Known findings and fixed defects: known_findings.txt.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
