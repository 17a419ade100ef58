"""Non-interference: the same history is run twice on the real network, once per value of a
secret.  What an uninvolved observer receives must not depend on the secret."""
import re
import ircsim, pbt, p10
from pbt import Violation

IDLE = re.compile(r"^(:\S+ 317 \S+ \S+) \d+ ")


def mask_idle(raw):
    return IDLE.sub(r"\1 * ", raw)


class TwinCheck(pbt.Check):
    """Subclasses: boot(net), plan(case, side) -> runs one side, filling self.obs[(op, observer)] lists"""
    NETS = []
    VARIANT = "plain"
    FEATURES = {}
    MSG = "what an uninvolved user sees depends on what must stay hidden."

    def boot(self, net):
        n, topology = self.NETS[net]
        w = ircsim.boot_network(n, self.VARIANT, topology=topology, features=self.FEATURES, pingfreq=100000)
        w.svc = p10.Peer(w).handshake()
        return w

    def norm(self, side, raw):
        return mask_idle(raw)

    def side(self, w, case, side):
        """returns (list of (label, [lines]), info)"""
        raise NotImplementedError

    def run(self, case):
        net = case["net"]
        w = self.world("net%s" % net, lambda: self.boot(net))
        got, infos = [], []
        for s in (0, 1):
            with pbt.case_of(self, w):
                tr, info = self.side(w, case, s)
                got.append(tr)
                infos.append(info)
        a, b = got
        checks = 0
        for (la, xa), (lb, xb) in zip(a, b):
            checks += 1
            xa = [self.norm(0, x) for x in xa]
            xb = [self.norm(1, x) for x in xb]
            if la != lb or self.key(xa) != self.key(xb):
                raise Violation(self.MSG + "\n  after %s:\n   with the secret:    %s\n   without/otherwise:  %s" % (
                    la, "; ".join(x for x in xa if x not in xb) or xa, "; ".join(x for x in xb if x not in xa) or xb))
        if len(a) != len(b):
            raise Violation("the two runs differ in length: %d, %d" % (len(a), len(b)))
        info = {k: infos[0][k] for k in infos[0]}
        info["checks"] = checks
        return info

    def key(self, lines):
        return lines
