#!/usr/bin/env python3
"""Driver: instrument + build the current /repo tree, explore, write evidence.

usage: run.py check  PROP quick|thorough
       run.py replay FILE
       run.py build  GROUP [DIR]       (development: leaves the binary in DIR)
"""
import concurrent.futures, json, os, shutil, subprocess, sys, time, tempfile, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = os.path.join(VERIF, 'mc')
REPO = os.environ.get('WILLOW_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
NW = int(os.environ.get('MC_WORKERS', '8'))

GROUPS = json.load(open(os.path.join(MC, 'groups.json')))


def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                e[k.decode()] = v.decode()
    except Exception:
        pass
    e['GOFLAGS'] = '-mod=mod'
    e['GOWORK'] = 'off'
    e['GOPROXY'] = 'off'
    e['GOTOOLCHAIN'] = e.get('GOTOOLCHAIN', 'local') or 'local'
    e.pop('VS_TRACE', None)
    return e


ENV = env()


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, extra=None):
    e = dict(ENV)
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), p.stdout, p.stderr))
    return p.stdout


def build(group, work):
    os.makedirs(work, exist_ok=True)
    mod = os.path.join(work, 'mod')
    if os.path.exists(mod):
        shutil.rmtree(mod)
    os.makedirs(mod)
    instr = os.path.join(work, 'instr')
    sh(['go', 'build', '-o', instr, '.'], cwd=os.path.join(MC, 'instr'))
    cfg = GROUPS['groups'][group]
    stats = sh([instr, '-repo', REPO, '-out', mod, '-roots', ' '.join(cfg['roots'])], cwd=REPO)
    for d in os.listdir(os.path.join(MC, 'rt')):
        src = os.path.join(MC, 'rt', d)
        shutil.copytree(src, os.path.join(mod, 'verifmc', d), dirs_exist_ok=True,
                        ignore=shutil.ignore_patterns('*.py'))
    shutil.copytree(os.path.join(MC, 'h'), os.path.join(mod, 'verifmc', 'h'), dirs_exist_ok=True)
    for f in ('go.mod', 'go.sum'):
        shutil.copy(os.path.join(REPO, f), os.path.join(mod, f))
    binp = os.path.join(work, group + '.bin')
    sh(['go', 'build', '-trimpath', '-o', binp, './verifmc/h/' + group], cwd=mod)
    return binp, stats.strip()


def build_race(group, work):
    """The same instrumented tree with every access of the code under test reported to the race detector."""
    binp = os.path.join(work, group + '.race')
    # pools of the standard library do not reuse anything: a reuse would order the accesses of two threads by accident
    pool = os.path.join(sh(['go', 'env', 'GOROOT']).strip(), 'src', 'sync', 'pool.go')
    src = open(pool).read()
    for head, stop in (('func (p *Pool) Put(x any) {\n', 'return'),
                       ('func (p *Pool) Get() any {\n', 'if p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil')):
        src = src.replace(head, head + '\tif race.Enabled {\n\t\t' + stop + '\n\t}\n')
    mine, over = os.path.join(work, 'pool.go'), os.path.join(work, 'overlay.json')
    open(mine, 'w').write(src)
    json.dump({'Replace': {pool: mine}}, open(over, 'w'))
    sh(['go', 'build', '-race', '-trimpath', '-overlay', over, '-gcflags=github.com/DanLavine/willow/verifmc/...=-race=false',
        '-o', binp, './verifmc/h/' + group], cwd=os.path.join(work, 'mod'),
       # the specialised allocators, which the compiler calls from packages built without -race, do not tell the detector
       # that the memory is new
       extra={'GOEXPERIMENT': ','.join(x for x in (ENV.get('GOEXPERIMENT'), 'nosizespecializedmalloc') if x)})
    return binp


def race_env(work):
    return dict(ENV, GORACE='log_path=%s exitcode=0 history_size=4 atexit_sleep_ms=0' % os.path.join(work, 'races'))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                o = json.loads(l)
                if o.get('status') == 'known':
                    out.append(o)
    return out


def shards(cmd, work, name, share, envv, knownf, stopf):
    """Runs the NW workers of one exploration; returns their results and what went wrong."""
    procs = []
    for i in range(NW):
        o = os.path.join(work, '%s-%d.json' % (name, i))
        procs.append((i, o, subprocess.Popen(
            cmd + ['-shard', str(i), '-nshards', str(NW), '-budget', '%.1f' % share, '-out', o, '-known', knownf,
                   '-stopfile', stopf],
            env=envv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=work)))
    outs, errs = [], []
    for i, o, p in procs:
        try:
            so, se = p.communicate(timeout=share + 110)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            errs.append('worker %d: did not finish within its time\n%s' % (i, se[-4000:]))
            continue
        if p.returncode != 0:
            errs.append('worker %d: exit %d\n%s%s' % (i, p.returncode, so[-2000:], se[-6000:]))
            continue
        outs.append(json.load(open(o)))
    return outs, errs


def merge(d, g, prop, results, order, viols):
    """Adds what one worker covered and found."""
    for r in d['results'] or []:
        k = (g, r['scenario'])
        if k not in results:
            results[k] = dict(r, stats=dict(r['stats']))
            order.append(k)
            continue
        a, b = results[k], r
        for f in ('execs', 'pruned', 'steps', 'nodes', 'states'):
            a['stats'][f] += b['stats'][f]
        a['stats']['max_depth'] = max(a['stats']['max_depth'], b['stats']['max_depth'])
        a['stats']['bound_done'] = min(a['stats']['bound_done'], b['stats']['bound_done'])
        a['stats']['complete'] = a['stats']['complete'] and b['stats']['complete']
        a['full'] = a['full'] and b['full']
        a['wall'] = max(a['wall'], b['wall'])
        for x, n in (b['stats'].get('outcomes') or {}).items():
            a['stats']['outcomes'][x] = a['stats']['outcomes'].get(x, 0) + n
    for v in d.get('violations') or []:
        k = (g, v['scenario'], v['key'])
        if k not in viols or len(v['choices']) < len(viols[k]['choices']):
            if k in viols:
                v['count'] += viols[k]['count']
            v['group'] = g
            v['property'] = prop
            viols[k] = v
        else:
            viols[k]['count'] += v['count']


def check(prop, tier):
    t0 = time.time()
    group_list = [g for g, c in GROUPS['groups'].items() if prop in c['props']]
    if not group_list:
        print('no group for', prop)
        return 2
    budget = {'quick': float(os.environ.get('MC_BUDGET', GROUPS.get('quick_budget', 240))),
              'thorough': float(os.environ.get('MC_BUDGET', GROUPS.get('thorough_budget', 760)))}[tier]
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='%s-' % prop, dir=BUILD)
    results, viols, instr_stats = {}, {}, []
    order = []
    known = [k for k in load_known() if k['property'] == prop]
    kmap = {}
    for k in known:
        kmap.setdefault(k['scenario'], []).extend(k['keys'])
    knownf, stopf = os.path.join(work, 'known.json'), os.path.join(work, 'stop')
    json.dump(kmap, open(knownf, 'w'))
    race, race_notes = {}, []
    pool = concurrent.futures.ThreadPoolExecutor(1)
    try:
        for gi, g in enumerate(group_list):
            binp, st = build(g, os.path.join(work, g))
            instr_stats.append('%s: %s' % (g, st))
            racer = None
            if g not in GROUPS['no_race'] and not os.environ.get('MC_NORACE'):
                racer = pool.submit(build_race, g, os.path.join(work, g))
            share = max((budget - (time.time() - t0)) / (len(group_list) - gi), 5)
            outs, errs = shards([binp, '-prop', prop, '-tier', tier], work, g, share, ENV, knownf, stopf)
            if errs:
                print('\n'.join(errs))
                print('no answer: the exploration did not run to its end')
                return 2
            for d in outs:
                merge(d, g, prop, results, order, viols)
            if racer is None or any(v['key'] not in kmap.get(v['scenario'].split('@')[0], []) for v in viols.values()):
                continue
            try:
                outs, errs = shards([racer.result(), '-prop', prop, '-tier', tier], work, g + '-race', min(GROUPS['race_budget'][tier], 2 * GROUPS['race_budget'][tier] / len(group_list)),
                                    race_env(work), knownf, stopf)
            except BuildError as e:
                outs, errs = [], [str(e)[-2000:]]
            if errs:
                race_notes.append('%s: incomplete: %s' % (g, errs[0]))
                print('accesses to memory were not all checked: ' + errs[0])
            for d in outs:
                merge(d, g, prop, race, [], viols)
    except BuildError as e:
        print(str(e)[-6000:])
        print('no answer: the tree does not build under the model checker')
        return 2
    finally:
        pool.shutdown()
        shutil.rmtree(work, ignore_errors=True)

    rd = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rd, f))
    rc = 0
    seen = {}
    n = 0
    for k in sorted(viols):
        v = viols[k]
        scen = v['scenario'].split('@')[0]
        hit = None
        for kf in known:
            if kf['scenario'] == scen and v['key'] in kf['keys']:
                hit = kf
                break
        if hit is not None:
            seen.setdefault(hit['id'], [hit, 0])[1] += v['count']
            continue
        n += 1
        path = os.path.join(rd, '%s-%d.json' % (prop, n))
        json.dump(v, open(path, 'w'), indent=1)
        print('violated in scenario %s: %s' % (v['scenario'], v['key']))
        print('   ' + v['detail'][:1500].replace('\n', '\n   '))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    for fid in sorted(seen):
        kf, c = seen[fid]
        print('KNOWN-FINDING: property=%s %s [%s, %d executions]' % (prop, kf['what'], fid, c))
    # findings that were listed but not seen in this tier are still reported as listed
    for kf in known:
        if kf['id'] not in seen and (tier == 'thorough' or not kf.get('thorough_only')):
            print('KNOWN-FINDING: property=%s %s [%s, not met in this run]' % (prop, kf['what'], kf['id']))

    tot = lambda f: sum(results[k]['stats'][f] for k in results)
    full = all(results[k]['full'] for k in results)
    samples = []
    for k in order[:400]:
        r = results[k]
        samples.append({'scenario': k[1], 'group': k[0], 'deviation_bound': r['bound'], 'bound_completed': r['stats']['bound_done'],
                        'schedule_space_exhausted': r['stats']['complete'], 'executions': r['stats']['execs'],
                        'equivalent_prefixes_cut': r['stats']['pruned'], 'scheduling_steps': r['stats']['steps'],
                        'max_choices': r['stats']['max_depth'], 'outcomes': r['stats']['outcomes'], 'wall_s': round(r['wall'], 2)})
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': max(1, tot('nodes')), 'transitions': max(1, tot('steps')),
            'traces_validated_against_impl': tot('execs'),
            'samples': samples, 'exhaustive': bool(full),
            'executions': tot('execs'), 'equivalent_prefixes_cut': tot('pruned'),
            'validation': 'every explored execution runs the instrumented real implementation; there is no separate model to validate',
            'instrumented': instr_stats,
            'memory_accesses': {
                'what': 'accesses of the code under test that no synchronisation orders (data races), looked for in every '
                        'execution of the concurrent scenarios with at most this many deviations',
                'scenarios': len(race), 'executions': sum(r['stats']['execs'] for r in race.values()),
                'scheduling_steps': sum(r['stats']['steps'] for r in race.values()),
                'scenarios_exhausted_to_bound': sum(1 for r in race.values() if r['full']),
                'deviation_bounds': sorted(set(r['bound'] for r in race.values())),
                'incomplete': race_notes,
            },
            'violations': len(viols), 'known_findings_met': sorted(seen),
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d scenarios, %d executions, %d states, %d steps, %s, %.1fs' % (
        prop, tier, len(results), tot('execs'), tot('nodes'), tot('steps'),
        'bounds exhausted' if full else 'stopped by time budget', time.time() - t0))
    if race:
        r = ev['coverage']['memory_accesses']
        print('   data races: %d scenarios, %d executions, %d steps, %d of the scenarios to their bound' % (
            r['scenarios'], r['executions'], r['scheduling_steps'], r['scenarios_exhausted_to_bound']))
    if rc == 0 and tot('execs') == 0:
        print('nothing was explored')
        return 2
    return rc


def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix='replay-', dir=BUILD) if os.path.isdir(BUILD) else tempfile.mkdtemp()
    try:
        binp, _ = build(v['group'], work)
        e = ENV
        if v.get('kind') == 'race':
            binp, e = build_race(v['group'], work), race_env(work)
        p = subprocess.run([binp, '-replay', path], env=e)
        return p.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else 'quick'))
    if sys.argv[1] == 'setup':
        # nothing is kept between runs: every check instruments and builds the current tree itself
        sys.exit(subprocess.run(['go', 'version'], env=ENV).returncode)
    if sys.argv[1] == 'replay':
        os.makedirs(BUILD, exist_ok=True)
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    if sys.argv[1] == 'build':
        d = sys.argv[3] if len(sys.argv) > 3 else os.path.join(BUILD, 'dev')
        try:
            print(build(sys.argv[2], d))
            if os.environ.get('RACE'):
                print(build_race(sys.argv[2], d))
        except BuildError as e:
            print(e)
            sys.exit(2)
