"""One verification job: a harness (contract) of one TU, possibly restricted to one enum value."""
import sys, json, time, resource, traceback


def main():
    spec = json.load(open(sys.argv[1]))
    lim = int(spec.get('mem_gb', 6)) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(20000)
    from . import ir, sx, smt, rat
    t0 = time.time()
    out = {'harness': spec['entry'], 'enum': spec.get('enum'), 'status': 'ok'}
    ex = None
    try:
        m = ir.Module(open(spec['ll']).read())
        dem = json.load(open(spec['dem']))
        opts = dict(spec.get('opts') or {})
        if spec.get('enum'):
            opts['enum'] = {k: tuple(v) for k, v in spec['enum'].items()}
        ex = sx.Exec(m, dem, opts)
        from . import lib
        for rx, target in spec.get('stubs', []):
            lib.add_stub(ex, rx, target)
        try:
            ex.run(spec['entry'])
        except sx.Enough:
            pass
    except sx.Unsupported as e:
        out['status'] = 'unsupported'
        out['why'] = str(e)
    except MemoryError:
        out['status'] = 'unsupported'
        out['why'] = 'out of memory'
    except RecursionError:
        out['status'] = 'unsupported'
        out['why'] = 'recursion limit of the verifier'
    except Exception as e:
        out['status'] = 'unsupported'
        out['why'] = 'verifier error: ' + ''.join(traceback.format_exc()[-1500:])
    if ex is not None:
        out['obls'] = {k: {a: b for a, b in o.items()} for k, o in ex.obls.items()}
        out['fails'] = ex.fail_states
        out['funcs'] = {dem_name(ex, n): c for n, c in ex.funcs_seen.items()}
        out['summaries'] = sorted(getattr(ex.lib, 'USED', ()))
        out['loops_cut'] = ['%s #%s' % (ex.dname(a), b) for a, b in sorted(ex.cutset)]
        out['invs'] = sum(getattr(ex, 'invs', {}).values())
        out['paths'] = ex.paths
        out['steps'] = ex.total_steps
        out['reached'] = sorted(ex.reached)
    out['smt'] = dict(smt.STAT)
    out['rat'] = dict(rat.STAT)
    out['wall'] = time.time() - t0
    json.dump(out, open(sys.argv[2], 'w'))


def dem_name(ex, n):
    return ex.dem.get(n, n)


if __name__ == '__main__':
    main()
