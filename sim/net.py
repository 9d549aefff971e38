"""Simulated network: named servers with credentials and TLS, and where connections may go.

Connection arguments are read by the real drivers (libpq's parser through psycopg2, PyMySQL's
Connection object with its real SSLContext), and TLS handshakes are made with OpenSSL through
memory buffers.  What libpq does with a TLS setting is modelled (it is C code that opens its own
socket)."""
import os
import ssl

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
PREFIX = {"src": "SUBSET_SOURCE_", "dst": "SUBSET_DESTINATION_"}
CFG_DIALECT = {"postgresql": "postgres", "mysql": "mysql"}
DEFAULT_PORT = {"postgresql": 5432, "mysql": 3306}


def data(name):
    return os.path.join(DATA, name)


_server_ctx = {}


def server_context(cert, client_ca):
    ctx = _server_ctx.get((cert, client_ca))
    if ctx is None:
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.load_cert_chain(data(cert + ".pem"), data(cert + ".key"))
        if client_ca:
            ctx.load_verify_locations(data("ca1.pem"))
            ctx.verify_mode = ssl.CERT_REQUIRED
        _server_ctx[(cert, client_ca)] = ctx
    return ctx


def handshake(client_ctx, hostname, server_ctx):
    """None if the handshake succeeds, else what is wrong."""
    c_in, c_out, s_in, s_out = (ssl.MemoryBIO() for _ in range(4))
    try:
        client = client_ctx.wrap_bio(c_in, c_out, server_hostname=hostname)
        server = server_ctx.wrap_bio(s_in, s_out, server_side=True)
        todo = [client, server]
        for _ in range(20):
            for side in list(todo):
                try:
                    side.do_handshake()
                    todo.remove(side)
                except ssl.SSLWantReadError:
                    pass
                s_in.write(c_out.read())
                c_in.write(s_out.read())
            if not todo:
                break
        else:
            return "handshake does not end"
        # a refusal of the client's certificate arrives with the first bytes
        try:
            server.write(b"x")
            c_in.write(s_out.read())
            client.read(1)
        except ssl.SSLWantReadError:
            pass
    except (ssl.SSLError, ValueError, OSError) as exc:
        return f"{type(exc).__name__}: {getattr(exc, 'reason', None) or exc}"
    return None


# ------------------------------------------------------------------------------ drivers
class Params:
    """What a driver makes of its connection arguments."""

    def __init__(self, host, port, user, password, database, mode, ctx):
        self.host, self.port, self.user = host, port, user
        self.password, self.database = password, database
        self.mode, self.ctx = mode, ctx  # mode: disable | allow | prefer | require
        self.error = None  # why the driver gives up before dialling


def pg_params(kwargs):
    import psycopg2.extensions as ext

    kw = {k: v for k, v in kwargs.items() if v is not None}
    p = ext.parse_dsn(ext.make_dsn(**kw))
    mode = p.get("sslmode", "prefer")
    if mode not in ("disable", "allow", "prefer", "require", "verify-ca", "verify-full"):
        raise ValueError(f'invalid sslmode value: "{mode}"')
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ctx.check_hostname = mode == "verify-full"
    root = p.get("sslrootcert")
    error = None
    if root:
        ctx.verify_mode = ssl.CERT_REQUIRED
        try:
            ctx.load_verify_locations(root)
        except OSError:
            error = f"could not read root certificate file {root}"
    elif mode in ("verify-ca", "verify-full"):
        error = "root certificate file does not exist"
    else:
        ctx.verify_mode = ssl.CERT_NONE
    if p.get("sslcert"):
        try:
            ctx.load_cert_chain(p["sslcert"], p.get("sslkey"))
        except OSError:
            error = "could not read certificate file"
    res = Params(p.get("host", "localhost"), int(p.get("port", 5432)), p.get("user"),
                  p.get("password"), p.get("dbname"),
                  mode if mode in ("disable", "allow", "prefer") else "require", ctx)
    res.error = error
    return res


def my_params(kwargs):
    from pymysql.connections import Connection

    kw = dict(kwargs)
    kw["defer_connect"] = True
    c = Connection(**kw)
    pw = c.password
    return Params(c.host, c.port, c.user.decode() if isinstance(c.user, bytes) else c.user,
                  pw.decode("latin1") if isinstance(pw, bytes) else pw, c.db,
                  "disable" if not c.ssl else
                  "require" if getattr(c, "_ssl_required", True) else "prefer",
                  c.ctx if c.ssl else None)


# ------------------------------------------------------------------------------ the network
class Network:
    """Decides what becomes of each connection attempt, and whether the settings call for it."""

    def __init__(self, spec):
        self.spec = spec
        self.at = {(r["host"], r["port"]): role for role, r in spec.items()}
        self.n = {role: 0 for role in spec}
        self.problem = None
        self.accepted = []
        self.refused = []
        self.tls = {"plain": 0, "tls": 0}

    def flag(self, text):
        self.problem = self.problem or text

    def cert(self, role):
        s = self.spec[role]["server"]
        for sw in s.get("swaps", ()):
            if self.n[role] > sw["after"]:
                s = dict(s, cert=sw["cert"])
        return s["cert"], s.get("client_ca", False)

    def connect(self, sim, dbapi, kwargs, servers):
        """(role, server) of an accepted connection; raises the driver's error otherwise."""
        pg = dbapi.__name__ == "sim_psycopg2"

        def refuse(msg, code=2003):
            return dbapi.OperationalError(msg) if pg else dbapi.OperationalError(code, msg)

        try:
            p = pg_params(kwargs) if pg else my_params(kwargs)
        except Exception as exc:  # the driver rejects its arguments
            sim.note("net", "arguments", type(exc).__name__)
            self.refused.append((None, str(exc)))
            self.flag(f"the driver rejects the connection arguments: {exc}")
            raise refuse(str(exc)) from None
        role = self.at.get((p.host, p.port))
        if role is None:
            self.flag(f"connection to {p.host}:{p.port}, which the settings do not name")
            raise refuse(f"could not connect to {p.host}:{p.port}")
        s = self.spec[role]
        if (s["dialect"] == "postgresql") != pg:
            self.flag(f"{role}: connection through the driver of another database")
            raise refuse("protocol error")
        self.n[role] += 1
        sim.pre(f"{role}.dial", None, f"{p.host}:{p.port}")
        cert, client_ca = self.cert(role)
        err, enc = p.error, False
        if err:
            pass
        elif cert is None:
            if p.mode == "require":
                err = "server does not support SSL, but SSL was required"
        elif p.mode != "disable":
            err = handshake(p.ctx, p.host, server_context(cert, client_ca))
            enc = err is None
            if err and p.mode in ("prefer", "allow") and pg:
                err, enc = None, False
        want = expected(s, cert, client_ca)
        if err is None and want is not None:
            self.flag(f"{role}: {'encrypted' if enc else 'plain'} connection to a server that "
                      f"must be refused: {want}")
        if err is not None and want is None:
            self.flag(f"{role}: a server that satisfies the settings is refused: {err}")
        if s["level"] is not None and err is None and not enc:
            self.flag(f"{role}: plain connection although TLS is required")
        sim.note("net", role, "refused" if err else "tls" if enc else "plain")
        if err is not None:
            self.refused.append((role, err))
            raise refuse(err, 2026)
        self.tls["tls" if enc else "plain"] += 1
        for what, got, wanted in (("user", p.user, s["user"]),
                                  ("password", p.password or None, s["password"]),
                                  ("database", p.database, s["database"] if pg else None)):
            if got != wanted:
                self.flag(f"{role}: {what} {got!r} presented, {wanted!r} configured")
                raise refuse(f"access denied ({what})", 1045)
        self.accepted.append(role)
        return role, servers[role]


def expected(s, cert, client_ca):
    """Why the settings call for refusing this server (None: they do not)."""
    if s["level"] is None:
        return None
    if cert is None:
        return "it offers no TLS"
    if s["level"] in ("cert", "identity"):
        if not s["rootcert"]:
            return "its certificate is not signed by a trusted authority"
        if cert == "untrusted":
            return "its certificate is signed by another authority"
        if s["level"] == "identity" and cert == "wronghost":
            return "its certificate is for another host"
    if client_ca and s["client"] != "client1":
        return "it does not accept the client's certificate"
    return None


# ------------------------------------------------------------------------------ settings
def settings(spec, role):
    """(configuration entries, environment variables) of a role."""
    s = spec[role]
    cfg, env, ssl_cfg = {}, {}, {}
    decoy = {"dialect": "mysql" if s["dialect"] == "postgresql" else "postgres",
             "host": "decoy.example", "port": 6, "database": "decoydb", "username": "decoy",
             "password": "decoypw"}
    value = {"dialect": CFG_DIALECT[s["dialect"]], "host": s["host"], "port": s["port"],
             "database": s["database"], "username": s["user"], "password": s["password"]}
    for f, where in s["where"].items():
        if where in ("config", "both"):
            cfg[f] = value[f]
        if where == "env":
            env[f.upper()] = str(value[f])
        elif where == "both":
            env[f.upper()] = str(decoy[f])
    for f, (c, e) in s["ssl"].items():
        if c is not None:
            at = ssl_cfg
            *path, last = f.split(".")
            for k in path:
                at = at.setdefault(k, {})
            at[last] = real(c)
        if e is not None:
            env["SSL_" + f.replace(".", "_").upper()] = str(real(e))
    if ssl_cfg:
        cfg["ssl"] = ssl_cfg
    return cfg, {PREFIX[role] + k: v for k, v in env.items()}


def real(v):
    return data(v[1:]) if isinstance(v, str) and v.startswith("@") else v


__all__ = ["Network", "settings"]
