"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE  # noqa

with open(os.path.join(verif, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['all']),
            why_tests_cant=p['why'],
            anchors=dict(
                files=p['files'],
                mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                observe_at=p.get('observe', []),
                hook_needed=None))) + '\n')

na = {x['property'] for x in NOT_APPLICABLE}
with open(os.path.join(verif, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1,
        setup_cmd='./setup.sh',
        checks=[dict(
            property=p['id'],
            quick_cmd='./run_check.sh %s' % p['id'],
            thorough_cmd='./run_check.sh %s --tier thorough' % p['id'],
            technique=p['technique'],
            level='exploration',
            level_note=p['note'])
            for p in PROPS if p['id'] not in na
            and os.path.exists(os.path.join(
                verif, 'checks', p['id'] + '.py'))],
        not_applicable=NOT_APPLICABLE + [
            dict(property=p['id'], reason='its check is not built yet')
            for p in PROPS if p['id'] not in na and not os.path.exists(
                os.path.join(verif, 'checks', p['id'] + '.py'))],
        notes='No hooks are needed: every check drives the library through '
              'its public interface.'), f, indent=1)
    f.write('\n')
