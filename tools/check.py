#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree. Exit 0: held on everything explored; 1: VIOLATION; other: error."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rt, props

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2: rt.TIER = sys.argv[2]
    work = rt.Work(prop); cov = {}
    runner, level, assumptions = props.lookup(prop)
    try:
        runner(prop, work, cov)
        for f in rt.known_findings(prop): rt.log(f'KNOWN-FINDING: property={prop} {f}')
        rt.evidence(prop, level, cov, assumptions)
        rt.log(f'property={prop} held: {cov.get("traces_validated_against_impl", 0)} executions validated, {cov.get("states", 0)} states')
        return 0
    except rt.Violation as v:
        cov.setdefault('samples', [v.what]); cov.setdefault('states', 0); cov.setdefault('transitions', 0); cov.setdefault('traces_validated_against_impl', 1)
        rt.evidence(prop, level, cov, assumptions, violations=1)
        rt.report(work, v); return 1
    except rt.CheckError as e:
        rt.log('CHECK ERROR: ' + str(e)[:3000]); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        work.close()
sys.exit(main())
