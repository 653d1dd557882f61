#!/usr/bin/env python3
"""mutate.py CRATE OUT [shard n]: small changes of the sources, one at a time, each judged by the checker of the crate.

To be run inside tools/sb.sh (or another private copy): it edits /repo. For each mutant: does it build; does the checker
(`any`: the scenarios of all the crate's properties) see it; and if not, do the repository's own tests see it.
One JSON line per mutant goes to OUT."""
import json, re, subprocess, sys, os, random

CR = {
    'v1': ('contracts/marketplace/src', ['execute', 'helpers', 'query', 'state', 'sudo', 'msg'], 'M', 16),
    'ra': ('contracts/reserve-auction/src', ['execute', 'helpers', 'instantiate', 'migrate', 'query', 'state', 'sudo', 'msg'], 'R', 11),
    'v2': ('contracts/stargaze-marketplace-v2/src', ['execute', 'helpers', 'instantiate', 'migrate', 'query', 'state', 'orders', 'msg', 'events'], 'V', 14),
    'common': ('packages/sg-marketplace-common/src', ['address', 'coin', 'nft', 'royalties', 'sale', 'types'], 'S', 4),
}
SUBS = [
    (r'(?<![<>=!-])<(?![<=>])(?= )', ['<=', '>']), (r' <= ', [' < ', ' >= ']), (r' >= ', [' > ', ' <= ']),
    (r'(?<![=-]) > (?!=)', [' >= ', ' < ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' + ']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<=[ (])!(?=[a-z(])', ['']), (r'Order::Ascending', ['Order::Descending']), (r'Order::Descending', ['Order::Ascending']),
    (r'Bound::exclusive', ['Bound::inclusive']), (r'Bound::inclusive', ['Bound::exclusive']),
    (r'Bound::ExclusiveRaw', ['Bound::InclusiveRaw']), (r'\.is_some\(\)', ['.is_none()']), (r'\.is_none\(\)', ['.is_some()']),
    (r'\.is_ok\(\)', ['.is_err()']), (r'\.is_err\(\)', ['.is_ok()']), (r'\bmax\(', ['min(']), (r'\bmin\(', ['max(']),
    (r'\bchecked_add\b', ['checked_sub']), (r'\bchecked_sub\b', ['checked_add']), (r'\bmul_ceil\b', ['mul_floor']),
    (r'\bmul_floor\b', ['mul_ceil']), (r'\.any\(', ['.all(']), (r'\.all\(', ['.any(']), (r'\bplus_seconds\b', ['minus_seconds']),
    (r'(?<=[ (=])(\d+)(?=u\d+\b|[,;) ])', ['PLUS1']), (r'Some\(false\)', ['Some(true)']),
    (r'(?<!info\.)\b(seller|bidder|buyer|creator|recipient|owner|sender)\b(?=[,);.])', ['SWAPID']),
    (r'\.is_zero\(\)', ['.is_zero() == false']), (r'\bcontinue;', ['break;']),
    (r'\.skip\(\d+\)', ['']), (r'\bunwrap_or_default\(\)', ['unwrap()']), (r'\bsome_or_default\b', ['x']),
    (r'\bDecimal::percent\b', ['Decimal::permille']), (r'\bDecimal::bps\b', ['Decimal::percent']),
    (r'^(\s*)return Err\(', [r'\1let _ = Err::<(), _>(']),
]
def mutants(root, files):
    out = []
    for f in files:
        p = f'{root}/{f}.rs'
        src = open('/repo/' + p).read().split('\n')
        intest = False
        for i, l in enumerate(src):
            s = l.strip()
            if s.startswith('#[cfg(test)]'): intest = True
            if intest or not s or s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', 'pub const', 'pub fn', 'fn ', 'pub struct', 'pub enum', 'impl', 'where', 'pub type', '"')):
                continue
            seen = set()
            for pat, reps in SUBS:
                for m in re.finditer(pat, l):
                    for r in reps:
                        if r == 'PLUS1': t = str(int(m.group(1)) + 1)
                        elif r == 'SWAPID':
                            t = {'seller': 'buyer', 'buyer': 'seller', 'bidder': 'seller', 'creator': 'recipient', 'recipient': 'creator', 'owner': 'sender', 'sender': 'owner'}[m.group(1)]
                        else: t = m.expand(r)
                        n = l[:m.start()] + t + l[m.end():]
                        if n != l and n not in seen:
                            seen.add(n); out.append((p, i, i, l, n, f'{m.group(0)} -> {t}'))
            # statements on one line
            if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', '}', ')', 'const ', '.')) and re.match(r'^[A-Za-z_*]', s) and s.count('(') == s.count(')'):
                out.append((p, i, i, l, '', 'statement dropped'))
            # one line of a chain
            if s.startswith('.') and s.count('(') == s.count(')') and s.count('{') == s.count('}'):
                out.append((p, i, i, l, ';' if s.endswith(';') else '', 'call dropped'))
            # statements over several lines, if / for blocks without else
            m = re.match(r'^(\s*)(if|for|match|[a-z_]+\(|[A-Z_]+\.|[a-z_]+ = |[a-z_.]+\.)', l)
            if m and not s.endswith(';') and not s.startswith('} '):
                ind = m.group(1)
                for j in range(i + 1, min(i + 40, len(src))):
                    if src[j].startswith(ind) and not src[j].startswith(ind + ' ') and src[j].strip():
                        e = src[j].strip()
                        prev = src[i - 1].strip()
                        if prev.endswith(('{', ';', '}')) and (e == '}' and m.group(2) in ('if', 'for') or e.endswith(';') and e[0] in ')}'):
                            out.append((p, i, j, l, '', f'lines {i+1}-{j+1} dropped'))
                        if e[0] not in '.)}]': break
                        if e.endswith(';') or e == '}': break
    return out
def main():
    c, outp = sys.argv[1], sys.argv[2]
    shard, nsh = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 1)
    root, files, pre, n = CR[c]
    props = ','.join(f'{pre}{k:02d}' for k in range(1, n + 1))
    ms = mutants(root, files)
    random.Random(7).shuffle(ms)
    if outp == '-':
        print(len(ms)); [print(m[0], m[1] + 1, m[5], '|', m[4].strip()[:90]) for m in ms[:40]]; return
    done = set()
    if os.path.exists(outp): done = {json.loads(l)['k'] for l in open(outp)}
    env = dict(os.environ, MC_LENIENT='1', VERIF_DIR='/verif')
    for k, (p, i, j, old, new, what) in enumerate(ms):
        if k % nsh != shard or k in done: continue
        path = '/repo/' + p
        orig = open(path).read()
        L = orig.split('\n')
        L[i:j + 1] = [new]
        open(path, 'w').write('\n'.join(L))
        r = {'k': k, 'file': p, 'line': i + 1, 'what': what, 'old': old.strip(), 'new': new.strip()}
        try:
            if subprocess.run(['./build.sh', c], cwd='/verif', capture_output=True, env=env).returncode: r['res'] = 'nobuild'
            else:
                try:
                    x = subprocess.run([f'mc/target/debug/mc-{c}', 'any', props], cwd='/verif', capture_output=True, text=True, env=env, timeout=1200)
                    o = x.stdout
                    if 'NOTHING' in o: r['res'] = 'missed'
                    elif 'FOUND' in o: r['res'] = 'found'; r['how'] = o.split('\n')[0][:300]
                    else: r['res'] = 'error'; r['how'] = (o + x.stderr)[-400:]
                except subprocess.TimeoutExpired: r['res'] = 'timeout'
                if r['res'] != 'found':
                    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True).returncode
                    subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/mut_out.json'], capture_output=True)
                    try:
                        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/mut_out.json'))
                        r['tests_broken'] = sorted(set(base['stable']) - set(got['passed']))[:4]
                    except Exception as e: r['tests_broken'] = [str(e)]
        finally:
            open(path, 'w').write(orig)
        open(outp, 'a').write(json.dumps(r) + '\n')
        print(r['res'], p.split('/')[-1], i + 1, what, r.get('how', '')[:150], r.get('tests_broken', ''), flush=True)
main()
