"""lists the functions of the repository that no property analyses: python3 tools/uncovered.py"""
import sys, threading
sys.path.insert(0, __file__.rsplit('/', 2)[0])


def main():
    from sa import run
    seen = set()
    ctx = None
    for i in range(1, 28):
        ctx, _ = run.run_property('C%02d' % i)
        seen |= set(map(str, ctx.funcs))
    n = 0
    for m in ctx.repo.modules.values():
        if not m.relpath.startswith('dedop/'):
            continue
        fs = list(m.funcs.values()) + [f for c in m.classes.values() for f in c.methods.values()]
        for f in fs:
            key = f.qual
            n += 1
            if not any(k.endswith(key) or k == f.qual for k in seen):
                print(key, f.node.end_lineno - f.node.lineno + 1)
    print(n, 'functions; sample of keys', sorted(seen)[:2])


if __name__ == '__main__':
    sys.setrecursionlimit(30000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()
