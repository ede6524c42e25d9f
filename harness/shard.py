"""Runs one shard of one property and writes what happened to a JSON file."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

warnings.simplefilter('ignore')

import harness  # noqa: F401,E402  (path set-up)


def shard_main(pid, shard, n_shards, tier, seed, out_path, budget):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25
    from harness.core import MALFORMED, Skip, Violation, case_hash, encode, evaluate, reduce_case

    prop = importlib.import_module(f'harness.props.{pid.lower()}').PROP
    started = time.time()
    hard_stop = started + budget
    result = {'subs': {}, 'failures': [], 'error': None}

    live = [s for s in prop.subs if s.shards is None or shard < s.shards]
    for position, sub in enumerate(live):
        info = {'evaluations': 0, 'skipped': 0, 'hashes': [], 'features': {},
                'slack': {}, 'samples': []}
        result['subs'][sub.name] = info
        seen = set()
        # what is left of the time is shared by the clauses that are left
        sub_stop = time.time() + max((hard_stop - time.time()) / (len(live) - position), 1.0)
        last_failure = {}
        count = sub.quick if tier == 'quick' else sub.quick * sub.thorough
        # a fixed seed per (run seed, shard, clause)
        the_seed = zlib.crc32(f'{seed}/{shard}/{pid}/{sub.name}'.encode())

        calls = [0]

        def run_one(case):
            # the first example is the simplest one, alike in all shards
            calls[0] += 1
            if shard and calls[0] == 1:
                return
            if time.time() > sub_stop and info['evaluations'] and not last_failure:
                return
            encoded = encode(case)
            try:
                ctx = evaluate(sub, encoded)
            except Skip:
                info['skipped'] += 1
                return
            except Violation as exc:
                last_failure['case'] = encoded
                last_failure['message'] = str(exc)
                raise
            info['evaluations'] += 1
            key = case_hash(encoded)
            if ctx.is_nontrivial and key not in seen:
                seen.add(key)
                if len(info['samples']) < 2:
                    text = json.dumps(encoded)
                    if len(text) < 3000:
                        info['samples'].append(encoded)
            for name in ctx.features:
                info['features'][name] = info['features'].get(name, 0) + 1
            for name, ratio in ctx.slack.items():
                if ratio > info['slack'].get(name, (0.0, None))[0]:
                    info['slack'][name] = (ratio, encoded if ratio > 0.3 else None)

        test = given(sub.strategy)(run_one)
        test = settings(max_examples=count + bool(shard), deadline=None, database=None,
                        print_blob=False, report_multiple_bugs=False,
                        phases=[Phase.generate, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hseed(the_seed)(test)
        try:
            test()
        except Violation:
            pass
        except BaseException as exc:  # pylint: disable=broad-except
            if not last_failure:
                result['error'] = f'{pid}/{sub.name}: ' + ''.join(
                    traceback.format_exception(exc))[-3000:]
        info['hashes'] = sorted(seen)
        if last_failure:
            def still_fails(encoded):
                try:
                    evaluate(sub, encoded)
                except Violation as exc:
                    return str(exc)
                except Exception:  # pylint: disable=broad-except
                    return None
                return None
            case = last_failure['case']
            first = still_fails(case)
            if first:
                def same_kind(encoded):
                    # a cut case the oracle cannot digest is no reduction of one it refutes
                    message = still_fails(encoded)
                    return message and message.startswith(MALFORMED) == first.startswith(MALFORMED)
                if sub.axes:
                    case = reduce_case(sub, case, same_kind, time.time() + 20, time.time)
                message = still_fails(case) or last_failure['message']
                result['failures'].append({'sub': sub.name, 'case': case,
                                           'message': message})
            else:
                result['failures'].append({'sub': sub.name, 'case': case,
                                           'message': '(not deterministic) ' + last_failure['message']})
            break
        if result['error']:
            break
    result['wall_s'] = time.time() - started
    tmp = out_path + '.tmp'
    with open(tmp, 'w') as handle:
        json.dump(result, handle)
    os.replace(tmp, out_path)


if __name__ == '__main__':
    A = sys.argv[1:]
    shard_main(A[0], int(A[1]), int(A[2]), A[3], int(A[4]), A[5], float(A[6]))
