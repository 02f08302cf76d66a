"""Decide one property: design models, scenarios on the real code, trace validation."""
import argparse, importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

MODULES = {}
for m, ids in dict(p_pbf='C01 C02 C03 C04 C09 C18 C19 C20 C21', p_par='C05 C06 C07 C08 C10', p_order='C11', p_dump='C12 C13 C14 C15 C16 C17', p_conv='C22 C23 C24', p_res='C25 C26', p_dmg='C27', p_text='C28').items():
    for i in ids.split():
        MODULES[i] = m


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier')
    ap.add_argument('--seed')
    ap.add_argument('--only', help='run only the named families (development)')
    ap.add_argument('--replay')
    ap.add_argument('--no-build', action='store_true')
    a = ap.parse_args()
    rec = None
    if a.replay:
        rec = json.load(open(a.replay))
        a.prop, a.seed, a.tier = rec['property'], rec['seed'], rec['tier']
    if a.prop not in MODULES:
        print('unknown property', a.prop)
        return 2
    ctx = common.Ctx(a.prop, a.tier, a.seed)
    try:
        if not a.no_build:
            common.build(ctx)
        mod = importlib.import_module(MODULES[a.prop])
        if rec:
            # scenarios are functions of property, tier and seed: run the family that failed again
            ctx.only = {rec['family']}
            ctx.skip_models = True
            print('recorded:', rec['explain'])
        elif a.only:
            ctx.only = set(a.only.split(','))
        try:
            getattr(mod, a.prop)(ctx)
        except common.Enough:
            pass
        except Exception:
            if not ctx.violations:
                raise
            traceback.print_exc()                         # violations have been reported
        return ctx.finish()
    except common.ToolError as e:
        print('CHECK ERROR:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
