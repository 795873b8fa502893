# Serves calls of the chiavdf Python package: one request per line, one answer per line.
#   fn arg... with arguments i<int> b<hex bytes> s<text> t/f; answers: ok <value> | err <exception type>
import sys, threading
import chiavdf

def arg(a):
    k, v = a[0], a[1:]
    return int(v) if k == "i" else bytes.fromhex(v) if k == "b" else v if k == "s" else k == "t"
def show(v):
    if isinstance(v, bool): return "t" if v else "f"
    if isinstance(v, bytes): return "b" + v.hex()
    if isinstance(v, str): return "s" + v
    if isinstance(v, tuple): return ",".join(show(x) for x in v)
    return "?" + repr(v)
def call(l):
    w = l.split(" "); args = [arg(a) for a in w[1:]]
    try: r = "ok " + show(getattr(chiavdf, w[0])(*args))
    except Exception as e: r = "err " + type(e).__name__
    if [arg(a) for a in w[1:]] != args: r = "err arguments-changed"
    return r
for line in sys.stdin:
    line = line.rstrip("\n")
    if line.startswith("par "):            # par <threads> <rounds> <calls...separated by |>: each thread makes every call, starting at a different one
        _, n, rounds, rest = line.split(" ", 3); calls = rest.split("|"); n = int(n); rounds = int(rounds); out = [[] for _ in range(n)]; bar = threading.Barrier(n)
        def work(i):
            bar.wait()
            for r in range(rounds):
                for j in range(len(calls)): k = (i + j) % len(calls); out[i].append((k, call(calls[k])))
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts: t.start()
        for t in ts: t.join()
        seq = [call(c) for c in calls]; bad = [(k, r) for o in out for (k, r) in o if r != seq[k]]
        print("par bad %d alone [%s] together [%s]" % (bad[0][0], seq[bad[0][0]], bad[0][1]) if bad else "par ok " + "|".join(seq))
    else: print(call(line))
    sys.stdout.flush()
