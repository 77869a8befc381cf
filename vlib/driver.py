"""Executes histories against the code under test (runs in the project's interpreter).

usage: driver.py MODULE STAGE HISTORIES.json OUT.jsonl [skip]
Each output line is {"start": i} when a history begins and the executed history when it ends."""
import importlib
import json
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    module, stage, inp, outp, skip = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5])
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    mod = importlib.import_module('checks.' + module)
    st = mod.STAGES[stage]
    with open(inp) as f:
        hists = json.load(f)
    out = open(outp, 'a')
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull
    for i, h in enumerate(hists):
        if i < skip:
            continue
        out.write(json.dumps({'start': i}) + '\n')
        out.flush()
        np.random.seed(sum(map(ord, h['id'])) * 7919 % (2 ** 31))
        import random
        random.seed(h['id'])
        try:
            res = st.execute(h)
        except Exception:   # the projection met something that is not what the interface promises
            res = {'id': h['id'], 'died': 'exception', 'traceback': traceback.format_exc()[-3000:]}
        out.write(json.dumps(res, ensure_ascii=True) + '\n')
        out.flush()
    out.write(json.dumps({'end': True}) + '\n')
    out.close()


if __name__ == '__main__':
    main()
