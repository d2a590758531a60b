"""mutation sweep of one property: python3 tools/sweep.py C24 [limit]"""
import sys, threading
sys.path.insert(0, __file__.rsplit('/', 2)[0])


def main():
    from sa import run, sensitivity
    prop = sys.argv[1]
    limit = int(sys.argv[2]) if len(sys.argv) > 2 else None
    ctx, obls = run.run_property(prop)
    jobs = sensitivity.jobs_for(prop, ctx, limit)
    if len(sys.argv) > 3:
        jobs = [j for j in jobs if sys.argv[3] in j[1] + ':' + j[2]]
    res = sensitivity.sweep(jobs)
    cnt = {}
    for r in res:
        cnt[r[4].split()[0]] = cnt.get(r[4].split()[0], 0) + 1
    for r, j in zip(res, jobs):
        if r[4] != 'detected':
            import difflib, ast
            src = open(run.REPO + '/' + r[0]).read()
            a = ast.unparse(ast.parse(src)).splitlines()
            b = j[5].splitlines()
            d = [x for x in difflib.unified_diff(a, b, lineterm='', n=0) if x[:1] in '+-' and x[:3] not in ('+++', '---')]
            print(r[4], r[0].split('/')[-1], r[1], r[2][1], ' | '.join(x.strip() for x in d)[:230])
    print(prop, len(res), cnt)


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
