"""One shard of a search: generates cases with Hypothesis and judges them."""
import collections
import hashlib
import json
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis.internal.conjecture import engine

from .client import WORKER, HarnessError, UnexpectedError, WorkerDied
from .core import Verdict


class Violated(Exception):
    pass


def judge(prop, case):
    """Verdict of a case; an interpreter killed or hung by the code under
    test is a failure of the case."""
    try:
        return prop.check(case)
    except WorkerDied as e:
        v = Verdict()
        v.fail('the code under test took the interpreter down: %s' % e)
        return v
    except UnexpectedError as e:
        v = Verdict()
        if e.exc.get('in_repo'):
            v.fail('unexpected error: %s' % e.exc)
            return v
        # the harness could not use the public interface any more
        if e.exc['type'] in ('AttributeError', 'TypeError', 'KeyError',
                             'NameError', 'ImportError'):
            v.fail('public interface is broken: %s' % e)
            return v
        raise HarnessError(str(e))


def run(prop, tier, seed, shard, nshards, deadline_s, out):
    engine.MAX_SHRINKING_SECONDS = 40
    t_end = time.time() + deadline_s
    n = prop.quick if tier == 'quick' else prop.thorough
    st = {'evaluations': 0, 'units': 0, 'skipped_deadline': 0}
    cls = collections.Counter()
    keys = set()
    samples = []
    known = {}
    fail = {}

    def note(case, v, where):
        st['evaluations'] += 1
        st['units'] += v.units
        cls.update(v.cls)
        for k, d in v.known:
            known.setdefault(k, d)
        if v.nontrivial:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()
                             ).hexdigest()[:16]
            if h not in keys:
                keys.add(h)
                if len(samples) < 2 and where == 'gen':
                    samples.append(prop.sample(case, v))

    WORKER.ping()
    # regression cases are shared out over the shards
    for i, (name, case) in enumerate(prop.regressions()):
        if i % nshards != shard:
            continue
        v = judge(prop, case)
        note(case, v, 'reg')
        cls['regression cases'] += 1
        if v.fails:
            fail.update(case=case, fails=v.fails, where='regression ' + name)
            break

    if not fail and n > 0:
        @hypothesis.seed(seed * 1000 + shard)
        @settings(max_examples=n, database=None, deadline=None,
                  derandomize=False, report_multiple_bugs=False,
                  phases=(Phase.generate, Phase.shrink),
                  suppress_health_check=list(HealthCheck),
                  print_blob=False,
                  verbosity=hypothesis.Verbosity.quiet)
        @given(prop.strategy())
        def search(case):
            if not fail and time.time() > t_end:
                st['skipped_deadline'] += 1
                return
            v = judge(prop, case)
            note(case, v, 'gen')
            if v.fails:
                fail.update(case=case, fails=v.fails, where='search')
                raise Violated(v.fails[0])
        try:
            search()
        except Violated:
            pass
        except hypothesis.errors.Flaky:
            # the code under test answered differently when the case was
            # repeated; what was seen first is kept
            if not fail:
                raise
        except BaseException as e:
            if type(e).__name__ not in ('FlakyFailure', 'FlakyReplay') \
                    or not fail:
                raise
    if fail:
        again = judge(prop, fail['case'])
        fail['repeats'] = bool(again.fails)
    res = dict(st, cls=cls, keys=sorted(keys), samples=samples, known=known,
               fail=fail or None)
    with open(out, 'w') as f:
        json.dump(res, f)
    WORKER.stop()


def main():
    pid, tier, seed, shard, nshards, deadline, out = sys.argv[1:]
    from .props import load
    try:
        run(load(pid), tier, int(seed), int(shard), int(nshards),
            float(deadline), out)
    except BaseException:
        with open(out, 'w') as f:
            json.dump({'error': traceback.format_exc()[-4000:]}, f)
        WORKER.stop()
        sys.exit(2)


if __name__ == '__main__':
    main()
