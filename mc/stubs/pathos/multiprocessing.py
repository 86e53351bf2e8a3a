import os
import pickle


def cpu_count():
    return 3


class ProcessingPool:
    def __init__(self, n=None, *a, **k):
        self.n = n or 3

    nodes = 3

    def map(self, f, *its, **kw):
        items = list(zip(*[list(i) for i in its]))
        out = {}
        for w in range(min(self.n, max(1, len(items)))):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    with os.fdopen(wr, "wb") as fh:
                        pickle.dump({i: f(*items[i]) for i in range(w, len(items), self.n)}, fh)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            with os.fdopen(r, "rb") as fh:
                out.update(pickle.load(fh))
            os.waitpid(pid, 0)
        return [out[i] for i in range(len(items))]

    def imap(self, f, *its, **kw):
        return iter(self.map(f, *its))

    amap = uimap = imap

    def close(self):
        pass

    join = clear = restart = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


ProcessPool = Pool = ThreadPool = ProcessingPool
