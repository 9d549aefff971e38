"""C29: where a run connects to, as whom, and on what terms."""
from . import net, oracle, scen
from .base import Check, base_case, limit_dst_fks
from .checks_dst import rng_of
from .scen import need

HOSTS = ["localhost", "db-src.example", "db-dst.example", "my-db.example"]
CERTS = [None, "good", "wronghost", "untrusted"]
ODD = ["p@ss:w/rd%41", "s p", "q'\"", "\u00fcber", "a?b#c&d", "pw", "X", "100%"]


def places(rng, value, decoy):
    """(value in the configuration, value in the environment)."""
    return rng.choice([(value, None), (None, value), (value, decoy)])


def role_spec(rng, role, dialect):
    pg = dialect == "postgresql"
    s = {
        "dialect": dialect,
        "host": rng.choice(HOSTS), "port": rng.choice([net.DEFAULT_PORT[dialect]] * 2
                                                      + [rng.randint(1024, 65535)]),
        "user": f"{role}-" + rng.choice(ODD), "password": rng.choice(ODD + [None]),
        "database": "db" + rng.choice(["", "-x", " y", "%20"]),
    }
    where = {f: rng.choice(["config", "config", "env", "env", "both"])
             for f in ("dialect", "host", "port", "database", "username", "password")}
    if s["password"] is None:
        del where["password"]
    if not pg and rng.random() < 0.5:
        del where["database"]
    if not pg and rng.random() < 0.3:
        del where["dialect"]
    if s["host"] == "localhost" and rng.random() < 0.5:
        del where["host"]
    if s["port"] == net.DEFAULT_PORT[dialect] and rng.random() < 0.5:
        del where["port"]
    s["where"] = where
    level = s["level"] = rng.choice([None, None, None, "none", "none", "cert", "cert", "identity",
                                     "identity", "identity"])
    s["rootcert"] = rng.random() < (0.85 if level in ("cert", "identity") else 0.4)
    if level == "none" and pg:
        s["rootcert"] = False  # libpq verifies whenever it has a root certificate
    s["client"] = rng.choice([None, None, "client1", "client1", "client2"])
    ssl = {}
    if level is None:
        ssl["require"] = rng.choice([(None, None), (None, None), (False, None), (False, "1")])
        if rng.random() < 0.5:
            ssl["server.verify"] = places(rng, rng.choice(["none", "cert", "identity"]), "cert")
    else:
        ssl["require"] = rng.choice([(True, None), (None, "1"), (True, "1")])
        ssl["server.verify"] = places(rng, level, rng.choice(["none", "cert", "identity"]))
        if level == "none" and rng.random() < 0.4:
            del ssl["server.verify"]
    if s["rootcert"]:
        ssl["server.rootcert"] = places(rng, "@ca1.pem", "@ca2.pem")
    if s["client"]:
        other = "client2" if s["client"] == "client1" else "client1"
        cert = places(rng, f"@{s['client']}.pem", f"@{other}.pem")
        ssl["client.cert"] = cert
        ssl["client.key"] = tuple(x and x.replace(".pem", ".key") for x in cert)
    s["ssl"] = ssl
    server = {"client_ca": level is not None and rng.random() < 0.3}
    fits = [c for c in CERTS if net.expected(s, c, server["client_ca"]) is None]
    server["cert"] = rng.choice(fits if fits and rng.random() < 0.65 else CERTS)
    if rng.random() < 0.4:
        server["swaps"] = [{"after": rng.randint(1, 3), "cert": rng.choice(CERTS)}]
    s["server"] = server
    return s


class C29(Check):
    id = "C29"
    rule = ("random placement of every connection setting in the configuration, the environment "
            "or both (with decoys), servers with random certificates, exchanged for impostors "
            "between connections, and lost idle connections; every connection attempt judged; "
            "non-trivial: TLS was required or a setting came from the environment")

    def generate(self, rng, index, tier):
        case = base_case(rng, tables=(1, 3), rows=(0, 8), session=0.15, odd_names=0.0,
                         src={"sqlite": 1, "postgresql": 6, "mysql": 6},
                         dst={"same": 4, "sqlite": 1, "postgresql": 4, "mysql": 4, "dir": 2})
        limit_dst_fks(case)
        case["net"] = {}
        for role, dialect in (("src", case["src"]["dialect"]), ("dst", case["dst"].get("dialect"))):
            if dialect in net.DEFAULT_PORT:
                case["net"][role] = role_spec(rng, role, dialect)
        n = case["net"]
        if len(n) == 2 and (n["src"]["host"], n["src"]["port"]) == (n["dst"]["host"],
                                                                    n["dst"]["port"]):
            n["dst"]["port"] += 7
            n["dst"]["where"].setdefault("port", "config")
        case["tries"] = rng.choice([1, 2, 2])
        return case

    def execute(self, case, ctx):
        base = ctx.build(case)
        src = scen.src_rows(base, case)
        counts = None
        for i in range(case["tries"]):
            faults = []
            if i:
                if case.get("faults") is None:
                    rng = rng_of(case, "idle")
                    if not counts:
                        return
                    ops = sorted(counts)
                    case["faults"] = [
                        {"op": op, "n": rng.randint(1, counts[op]), "kind": "idle_drop",
                         "role": rng.choice([None, "src", "dst"])}
                        for op in rng.choices(ops, [counts[o] ** 0.5 * (8 if o.endswith("ping")
                                                                        else 1) for o in ops],
                                              k=rng.choice([1, 2, 4]))]
                faults = [dict(f, run=i) for f in case["faults"]]
            inst = ctx.clone(base)
            before = scen.dst_rows(inst)
            sim = ctx.sim(case, faults=faults, inst=inst)
            out = ctx.run(sim, inst, i)
            nw = sim.network
            counts = {o: n for o, n in sim.op_totals.items() if not o.endswith("dial")}
            if nw is None:
                return
            need(nw.problem is None, "C29.connection", str(nw.problem))
            for k, v in nw.tls.items():
                ctx.probe(f"conn_{k}", v)
            if nw.refused:
                ctx.probe("refused")
                need(out.status == "error", "C29.refusal",
                     f"a server was refused ({nw.refused[0][1]}) but the run ended {out.status}")
                if "dst" not in nw.accepted and "dst" in case["net"]:
                    need(scen.dst_rows(inst) == before, "C29.refusal",
                         "destination changed without a connection to it")
            else:
                need(out.status == "ok", "C29.failed", f"the run fails: {out.error}")
                p = oracle.content_problems(case, src, inst.read_out())
                need(not p, "C29.content", "; ".join(p[:3]))
            if any(s["level"] is not None or "env" in s["where"].values()
                   for s in case["net"].values()):
                ctx.nontrivial = True


CHECKS = [C29]
__all__ = ["CHECKS"]
