"""Decides one property: corpus, known findings, then sharded generation."""
import argparse
import glob
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import warnings

warnings.simplefilter('ignore')

import harness  # noqa: F401,E402

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(pid):
    """Findings listed for this property (entries with status 'known')."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl')
    found = []
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                line = line.strip()
                if line:
                    entry = json.loads(line)
                    if entry.get('property') == pid and entry.get('status') == 'known':
                        found.append(entry)
    return found


def write_replay(pid, sub, case, message):
    folder = os.path.join(ROOT, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f'{pid}-{sub}.json')
    with open(path, 'w') as handle:
        json.dump({'property': pid, 'sub': sub, 'message': message, 'case': case}, handle, indent=1)
    return path


def report(pid, sub, case, message):
    path = write_replay(pid, sub, case, message)
    print(f'--- {pid}/{sub}\n{message}')
    print(f'VIOLATION property={pid} replay={path}', flush=True)


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--shards', type=int)
    parser.add_argument('--budget', type=float)
    parser.add_argument('--only')
    args = parser.parse_args(argv)
    pid = args.property
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    started = time.time()

    from harness.core import Skip, Violation, evaluate
    try:
        prop = importlib.import_module(f'harness.props.{pid.lower()}').PROP
    except Exception as exc:  # pylint: disable=broad-except
        print(f'ERROR: cannot load {pid}: {exc!r}', file=sys.stderr)
        return 2

    def run_case(sub_name, case):
        try:
            evaluate(prop.sub(sub_name), case)
        except Skip:
            return 'SKIP'
        except Violation as exc:
            return str(exc)
        return None

    if args.replay:
        with open(args.replay) as handle:
            entry = json.load(handle)
        message = run_case(entry['sub'], entry['case'])
        if message == 'SKIP':
            print('the case is outside of the domain')
            return 0
        if message:
            print(message)
            print(f'VIOLATION property={pid} replay={args.replay}')
            return 1
        print('the property holds on this case')
        return 0

    violations = 0
    # 1. regression corpus
    corpus = sorted(glob.glob(os.path.join(ROOT, 'corpus', pid, '*.json')))
    for path in corpus:
        with open(path) as handle:
            entry = json.load(handle)
        message = run_case(entry['sub'], entry['case'])
        if message and message != 'SKIP':
            report(pid, entry['sub'], entry['case'], message)
            violations += 1
            break

    # 2. findings that are recorded and not repaired
    known = load_known(pid)
    for entry in known:
        message = run_case(entry['sub'], entry['case'])
        if message is None or message == 'SKIP':
            continue
        if entry['signature'] in message:
            print(f"KNOWN-FINDING: property={pid} {entry['what']}")
        else:
            report(pid, entry['sub'], entry['case'], message)
            violations += 1

    # 3. generated cases, in parallel shards
    shards = args.shards or prop.shards
    budget = args.budget or (70.0 if tier == 'quick' else 600.0)
    scratch = os.environ.get('GIRTHCHECK_SCRATCH') or '/tmp'
    results, errors = [], []
    if not violations:
        processes = []
        for shard in range(shards):
            out = os.path.join(scratch, f'shard{shard}.json')
            processes.append((shard, out, subprocess.Popen(
                [sys.executable, '-B', '-m', 'harness.shard', pid, str(shard), str(shards),
                 tier, str(args.seed), out, str(budget)], cwd=ROOT, start_new_session=True,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        limit = started + budget * 1.5 + 200
        pending, failed = list(processes), False
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                shard, out, process = item
                if process.poll() is None:
                    if time.time() > limit or failed:
                        _kill(process)
                        process.wait()
                        pending.remove(item)
                        if not failed:
                            errors.append(f'shard {shard} ran out of time')
                    continue
                pending.remove(item)
                if os.path.exists(out):
                    with open(out) as handle:
                        result = json.load(handle)
                    results.append(result)
                    if result['failures']:
                        failed = True
                    if result['error']:
                        errors.append(result['error'])
                else:
                    errors.append(f'shard {shard} exited {process.returncode}: '
                                  + process.stderr.read().decode(errors='replace')[-2000:])
                _kill(process)
        for result in results:
            for failure in result['failures']:
                report(pid, failure['sub'], failure['case'], failure['message'])
                violations += 1
                break
            if violations:
                break

    # 4. evidence
    write_evidence(prop, tier, args.seed, results, len(corpus), known, violations,
                   time.time() - started)
    if violations:
        return 1
    if errors:
        print('ERROR:\n' + '\n'.join(errors), file=sys.stderr)
        return 2
    return 0


def _kill(process):
    try:
        os.killpg(process.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def write_evidence(prop, tier, seed, results, n_corpus, known, violations, wall):
    per_sub, hashes, samples = {}, set(), []
    total = 0
    for result in results:
        for name, info in result['subs'].items():
            agg = per_sub.setdefault(name, {'evaluations': 0, 'outside_domain': 0, '_h': set(),
                                            'classes': {}, 'tolerance_used': {}, '_s': []})
            agg['evaluations'] += info['evaluations']
            agg['outside_domain'] += info['skipped']
            total += info['evaluations']
            agg['_h'].update(info['hashes'])
            hashes.update(name + h for h in info['hashes'])
            for key, value in info['features'].items():
                agg['classes'][key] = agg['classes'].get(key, 0) + value
            for key, (value, case) in info['slack'].items():
                if value > agg['tolerance_used'].get(key, 0):
                    agg['tolerance_used'][key] = round(value, 6)
            agg['_s'].extend(info['samples'])
    for name, agg in per_sub.items():
        for sample in agg.pop('_s')[:2]:
            samples.append({'clause': name, 'case': sample})
        agg['distinct_nontrivial'] = len(agg.pop('_h'))
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': len(hashes), 'rule': prop.rule,
            'samples': samples or [{'note': 'no generated case was small enough to print'}],
            'clauses': per_sub, 'corpus_cases': n_corpus, 'known_findings': len(known),
            'shards': len(results)},
        'assumptions': prop.assumptions, 'wall_s': round(wall, 3), 'violations': violations}
    folder = os.path.join(ROOT, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f'{prop.id}.json'), 'w') as handle:
        json.dump(evidence, handle, indent=1)


if __name__ == '__main__':
    try:
        CODE = main()
    except Exception:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        CODE = 2
    sys.exit(CODE)
