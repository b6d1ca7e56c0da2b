"""Which monitors decide which property, and in which builds they run."""

# the crates whose literals seed the workload ("mine") only influence which inputs are tried
COMPONENTS = {
    "text": {"dir": "text", "bin": "mon-text", "mine": ["text-pos", "apply-changes"]},
    "chain": {"dir": "chain", "bin": "mon-chain", "mine": ["chain-map", "fast-hash"]},
    "chain-sync": {"dir": "chain-sync", "bin": "mon-chain-sync", "mine": ["chain-map", "fast-hash"],
                   "setup": ["dev", "rel", "tsan", "miri"]},
    "paths": {"dir": "paths", "bin": "mon-paths", "mine": ["paths"], "setup": ["dev", "rel", "cov", "miri", "asan"]},
    "pm": {"dir": "pm", "bin": "mon-pm", "mine": ["pattern-match"]},
    "topo": {"dir": "topo", "bin": "mon-topo", "mine": ["topo-sort"]},
    "small": {"dir": "small", "bin": "mon-small",
              "mine": ["uniq", "idx", "text-size-util", "always", "str-process", "identifier-case", "code-h2-md-map",
                       "str-util", "fmt-util", "diagnostic", "elapsed", "char-name", "fast-hash", "text-pos"]},
    "sgen": {"dir": "sgen", "bin": "mon-sgen", "mine": ["syntax-gen", "write-rs-tokens", "identifier-case", "char-name"],
             "setup": ["dev", "rel"]},
    "sgen-kinds": {"dir": "sgen-kinds", "bin": "mon-sgen-kinds", "mine": ["syntax-gen"], "setup": ["dev", "rel", "miri"]},
    "parse": {"dir": "parse", "bin": "mon-parse", "mine": ["event-parse"]},
}


def std(comp, quick_secs=15, thorough_secs=420, cov=2, dev=3, rel=3):
    """Debug and release monitors plus the coverage-guided workload."""
    def groups(tier):
        secs = quick_secs if tier == "quick" else thorough_secs
        out = [
            {"comp": comp, "mode": "dev", "shards": dev, "secs": secs},
            {"comp": comp, "mode": "rel", "shards": rel, "secs": secs},
        ]
        if cov:
            out.append({"comp": comp, "mode": "cov", "shards": cov, "secs": secs})
        return out
    return groups


def both(*fs):
    return lambda tier: [g for f in fs for g in f(tier)]


def threads(tier):
    q = tier == "quick"
    return [
        {"comp": "chain-sync", "mode": "tsan", "shards": 4, "secs": 20 if q else 300, "cases": 3000 if q else 200_000},
        {"comp": "chain-sync", "mode": "miri", "shards": 4, "secs": 40 if q else 400, "cases": 60 if q else 3000},
        # without the aliasing model more schedules are seen in the same time
        {"comp": "chain-sync", "mode": "miri", "shards": 4, "secs": 40 if q else 400, "cases": 60 if q else 3000,
         "env": {"VMON_MIRI_FLAGS": "-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.05"}},
        {"comp": "chain-sync", "mode": "dev", "shards": 2, "secs": 10 if q else 200},
        {"comp": "chain-sync", "mode": "rel", "shards": 2, "secs": 10 if q else 200},
    ]


def casts(tier):
    q = tier == "quick"
    return [
        {"comp": "paths", "mode": "miri", "shards": 4, "secs": 12 if q else 400, "cases": 60 if q else 20_000},
        {"comp": "paths", "mode": "asan", "shards": 2, "secs": 8 if q else 200},
        {"comp": "paths", "mode": "dev", "shards": 1, "secs": 8 if q else 100},
        # rowan itself is not written for the experimental aliasing model; invalid values are found without it
        {"comp": "sgen-kinds", "mode": "miri", "shards": 3, "secs": 12 if q else 400, "cases": 40 if q else 10_000,
         "env": {"VMON_MIRI_FLAGS": "-Zmiri-disable-stacked-borrows"}},
        {"comp": "sgen-kinds", "mode": "dev", "shards": 1, "secs": 4 if q else 60},
        {"comp": "sgen-kinds", "mode": "rel", "shards": 1, "secs": 4 if q else 60},
    ]


PROPS = {
    "C01": {"groups": std("text")},
    "C02": {"groups": std("text")},
    "C03": {"groups": std("text")},
    "C04": {"groups": std("text")},
    "C05": {"groups": std("text")},
    "C40": {"groups": std("text")},
    "C06": {"groups": both(std("chain", dev=2, rel=2), std("chain-sync", cov=0, dev=1, rel=1))},
    "C07": {"groups": both(std("chain", dev=2, rel=2), std("chain-sync", cov=0, dev=1, rel=1))},
    "C42": {"groups": both(std("chain", dev=2, rel=2), std("chain-sync", cov=0, dev=1, rel=1))},
    "C08": {"groups": threads, "technique": "ThreadSanitizer, Miri's race detector and per-thread reference models"},
    "C09": {"groups": std("parse")},
    "C10": {"groups": std("parse")},
    "C11": {"groups": std("parse")},
    "C12": {"groups": std("parse")},
    "C13": {"groups": std("parse")},
    "C14": {"groups": std("parse")},
    "C15": {"groups": std("paths")},
    "C16": {"groups": std("paths")},
    "C17": {"groups": std("paths")},
    "C37": {"groups": casts, "technique": "Miri, AddressSanitizer and address checks on the real code"},
    "C18": {"groups": std("pm")},
    "C19": {"groups": std("pm")},
    "C35": {"groups": std("pm")},
    "C38": {"groups": std("pm")},
    "C39": {"groups": std("pm")},
    "C20": {"groups": std("topo")},
    "C21": {"groups": std("topo")},
    "C22": {"groups": std("topo")},
    "C23": {"groups": std("sgen", quick_secs=20, cov=0, dev=5, rel=3)},
    "C24": {"groups": std("sgen", quick_secs=20, cov=0, dev=5, rel=3)},
    "C25": {"groups": std("sgen", cov=0, dev=4, rel=4)},
    "C26": {"groups": std("small")},
    "C27": {"groups": std("small")},
    "C28": {"groups": std("small")},
    "C29": {"groups": std("small")},
    "C30": {"groups": std("small")},
    "C31": {"groups": std("small")},
    "C32": {"groups": std("small")},
    "C33": {"groups": std("small", cov=0, dev=2, rel=2)},
    "C34": {"groups": std("small")},
    "C41": {"groups": std("sgen", cov=0, dev=2, rel=2)},
    "C36": {"groups": both(std("parse", cov=1, dev=2, rel=2), std("small", cov=1, dev=1, rel=1))},
}
