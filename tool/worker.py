"""Verify one contract function: python worker.py MODULE.json ENTRY MODE LENS_JSON BUDGET OUT.json"""
import json
import os
import resource
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine as EN
import logic as L


def main():
    mod, entry, mode, lens, budget, out = sys.argv[1:7]
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    t0 = time.time()
    res = {'entry': entry, 'mode': mode, 'lens': json.loads(lens), 'error': None}
    E = None
    try:
        m = EN.Module(mod)
        E = EN.Engine(m, mode=mode, lens=json.loads(lens), budget=float(budget))
        E.run(entry)
    except EN.Unsupported as e:
        res['error'] = 'unsupported: ' + str(e)[:400]
    except MemoryError:
        res['error'] = 'memory limit'
    except RecursionError:
        res['error'] = 'recursion limit'
    except Exception as e:
        res['error'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e))[:300] + \
            ' | '.join(l.strip() for l in traceback.format_exc().splitlines()[-7:-1])[:600]
    if E is not None:
        res['obligations'] = [{'label': o.label, 'status': o.status, 'method': o.method if o.status == 'proved' else None,
                               'detail': o.detail, 'model': o.model} for o in E.obls]
        res['covers'] = sorted(E.covers)
        res['functions'] = sorted({(E.m.fns[n].norm, E.m.fns[n].file or '', E.m.fns[n].line or 0)
                                   for n in E.functions_executed})
        res['contracts_used'] = sorted(E.used_contracts)
        res['assumptions'] = sorted(E.assumptions)
        res['loops'] = sorted(set(E.loop_report.values())) if E.loop_report else []
        res['len_bounds'] = E.len_bounds
        res['paths'] = E.npaths
        res['instructions'] = E.ninstr
    res['stats'] = L.stats
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


main()
