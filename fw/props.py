#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
WHY = ('The existing tests that run are link and ABI tests; the unit tests sample a few fixed values for one compiler and one instruction set. '
       'The guarantee is for every %s, and the code that implements it differs per entry type, register width and instruction set.')


def P(pid, title, statement, over, qtext, why, files, mech, technique, note):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, _t=technique, _n=note))


BASE_T = ('runtime monitoring: the real templates are compiled per instruction set with gcc and clang and with ASan+UBSan, run on generated and '
          'hostile inputs; ')
BASE_N = ('Sampled inputs, not proof. Covers the instruction sets scalar, SSE2..SSE4.2, AVX, AVX2 that this machine can execute; '
          'XOP/FMA4/SSE4a/MIC/NEON code cannot run here. ')

exec(open(os.path.join(V, 'fw', 'props_text.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 fw/setup.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 fw/run.py ' + p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 fw/run.py ' + p['id'], 'technique': p['_t'], 'level': 'exploration',
                       'level_note': p['_n'], 'evidence_file': 'evidence/%s.json' % p['id']} for p in PROPS],
           'not_applicable': NOT_APPLICABLE,
           'notes': 'Drivers in drivers/ call the public API of the headers in /repo and print what they observed; fw/run.py builds them from the '
                    'working tree, runs them and decides; fw/checks.py lists the build matrix; VERIF_SEED selects the inputs.'}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
