"""Runs calls each in a process in which nothing has been calculated before: argv: output file, scratch directory, seeds.
The parent only imports RayFlare; every call is made in a child of its own."""
import os
import pickle
import sys


class Quiet:
    def __init__(self, d):
        self.dir = d

    def event(self, *a):
        pass


def main():
    out, d, seeds = sys.argv[1], sys.argv[2], [int(s) for s in sys.argv[3:]]
    import logging
    import numpy as np
    from rfv import fake_s4
    fake_s4.install()
    logging.disable(logging.CRITICAL)
    import rayflare  # noqa
    import rayflare.options, rayflare.structure, rayflare.textures, rayflare.utilities  # noqa
    import rayflare.transfer_matrix_method, rayflare.ray_tracing, rayflare.rigorous_coupled_wave_analysis, rayflare.matrix_formalism  # noqa
    from rfv import calls, flat
    for s in seeds:
        pid = os.fork()
        if pid == 0:
            try:
                p = os.path.join(d, "s%d" % s)
                os.makedirs(p)
                os.chdir(p)
                with np.errstate(all="ignore"):
                    c = calls.Call(Quiet(p), np.random.default_rng(s), names=calls.MORE)
                    r = list(flat.walk(c(dict(c.o))))
                with open(out + ".%d" % s, "wb") as f:
                    pickle.dump(r, f)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
