"""What each check claims, for MANIFEST.json."""
TECH = {
    "C01": "seeded schedules of other clients' transactions between the run's statements; "
           "closure of the output",
    "C02": "seeded worlds, row and catalogue orders; output compared with a reference model",
    "C03": "seeded schedules of concurrent transactions against a snapshot source; output must "
           "match one committed state",
    "C10": "seeded worlds, random targets and appending clients; output compared with a reference "
           "relabelling",
    "C11": "seeded worlds and multiplicities; output compared with a reference model",
    "C17": "seeded catalogue orders, hash seeds and process histories; plans compared",
    "C20": "seeded slow source/destination schedules with large tables; buffered rows bounded at "
           "every step",
    "C21": "seeded streams behind the databases' random functions; sizes exact, inclusion counts "
           "tested at 6 sigma",
    "C25": "seeded worlds and recoveries after injected faults; bounded number of operations",
    "C04": "seeded faults, other clients' schedules and prior content; foreign keys of the "
           "destination checked after every commit",
    "C05": "seeded faults at every operation class; a run that reports success compared with a "
           "fault-free reference output",
    "C06": "seeded crashes and errors at arbitrary points followed by re-runs; final state "
           "compared with an uninterrupted run",
    "C07": "seeded faults and configurations; the source's full content and catalogue compared, "
           "and writes to it observed at the driver seam",
    "C08": "seeded prior content, repeated merges and faults; prior rows compared after every "
           "commit",
    "C09": "seeded sequences of merges with failures in between; each success must add one "
           "relabelled complete copy",
    "C12": "seeded overlaps between output and prior rows; per-row reference model of each "
           "strategy",
    "C13": "seeded prior content, dependants and faults; truncation compared with a reference "
           "closure of the foreign keys",
    "C14": "seeded key ranges, prior sequences, faults and re-runs; sequence positions compared "
           "with the keys present",
    "C22": "seeded invalid configurations on seeded worlds; no destination state change and a "
           "failure reported",
    "C23": "seeded missing tables, faults and re-runs; destination catalogue compared with the "
           "source's",
    "C24": "seeded table mappings with decoy tables; contents of every destination table compared",
    "C15": "seeded filter chains, draws, faults and kills; original values searched for in every "
           "committed state and written byte, replacements judged by a reference model",
    "C18": "seeded write faults and kills while plans are written, seeded damage to plans and "
           "configurations; outputs of every command path compared",
    "C19": "seeded loss of idle connections and simulated idle time-outs; the session of every "
           "statement inspected, result compared with the undisturbed run",
    "C16": "seeded file faults, source faults and kills over histories of runs; every output file "
           "parsed and compared with a reference model",
    "C28": "seeded chains of conditions on seeded rows, faults and kills; every committed row "
           "compared with a reference model of the conditions",
    "C29": "seeded placement of settings, server identities, impostors exchanged at "
           "reconnections and lost idle connections; every connection attempt judged",
}
NOTES = {
    "C01": "Sampled exploration of schema, data, configuration, order and concurrent appends.",
    "C02": "Sampled exploration; the oracle accepts exactly the row sets the configuration "
           "allows, for deterministic and random targets.",
    "C03": "Sampled exploration of where other clients' transactions commit.",
    "C10": "Sampled exploration; the reference model relabels the sampled rows.",
    "C11": "Sampled exploration; the reference model copies the sampled rows.",
    "C17": "Sampled exploration; plans are compared within and across processes.",
    "C20": "Sampled exploration with the shipped batch sizes; rows counted at the driver seam.",
    "C21": "Statistical: a bias is detected when it exceeds 6 standard deviations over the "
           "repetitions of one world. PRNG streams are seeded, so the verdict is repeatable.",
    "C25": "Sampled exploration; liveness as completion within a bounded number of operations.",
    "C04": "Sampled exploration; the invariant is evaluated on the committed state after every "
           "destination commit.",
    "C05": "Sampled exploration of single faults per run over all operation classes.",
    "C06": "Sampled exploration of fault points and numbers of interrupted runs.",
    "C07": "Sampled exploration.",
    "C08": "Sampled exploration; invariant at every destination commit.",
    "C09": "Sampled exploration of histories of up to four merges.",
    "C12": "Sampled exploration against a per-row reference model.",
    "C13": "Sampled exploration against a reference closure.",
    "C14": "Sampled exploration; simulated PostgreSQL only, the dialect the property is about.",
    "C22": "Sampled exploration over the kinds of invalid configuration in sim/checks_dst.py.",
    "C23": "Sampled exploration; catalogues compared structurally through each dialect's "
           "reflection.",
    "C24": "Sampled exploration of mappings and decoys.",
    "C15": "Sampled exploration; distinctive originals, so that a leak anywhere in a text is found.",
    "C18": "Sampled exploration of command paths, file faults and damage.",
    "C19": "Sampled exploration; only connections idle in the pool are closed.",
    "C16": "Sampled exploration of where files fail and runs die.",
    "C28": "Sampled exploration against a reference model.",
    "C29": "Sampled exploration; real driver argument parsing and OpenSSL handshakes in memory; "
           "libpq's use of its TLS parameters is modelled (compared once with a real server).",
}
