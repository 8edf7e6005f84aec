"""Which families of scenarios and which models decide which property."""

# family of scenarios -> the trace specification that judges it
FAMILIES = {
    "client": {"module": "TraceClient"},    # updater, sessions sharing a cache, honest and hostile repository
    "honest": {"module": "TraceClient"},    # correct repositories only
    "lib": {"module": "TraceClient"},       # repositories whose documents are made with the library's own API
    "damage": {"module": "TraceClient"},    # cache files damaged between sessions
    "offline": {"module": "TraceClient"},   # sessions in local mode
    "store": {"module": "TraceClient"},     # failing and interrupted writes
    "replay": {"module": "TraceClient", "gen": "client", "fixed": True},      # behaviours of MCClient, carried out
    "replay2": {"module": "TraceClient", "driver": "replay", "gen": "client2", "fixed": True},
    "cache": {"module": "TraceClient", "driver": "replay", "gen": "honestSmall", "fixed": True},     # any cache, a correct repository
    "cacheAll": {"module": "TraceClient", "driver": "replay", "gen": "honest", "fixed": True},
    "life": {"module": "TraceClient", "driver": "replay", "gen": "honestLife", "fixed": True},    # releases, crashes
    "share": {"module": "TraceClient"},     # several clients of one cache, taking turns
    "crowd": {"module": "TraceClient", "per": 100},     # many clients of one cache, all at once
    "sharereplay": {"module": "TraceClient", "driver": "replay", "gen": "shareGen", "fixed": True},   # others change the cache at any moment
    "sharereplayAll": {"module": "TraceClient", "driver": "replay", "gen": "shareGenAll", "fixed": True},
    "tworeplay": {"module": "TraceClient", "gen": "twoGen", "fixed": True},     # two clients of MCTwo
    "setreplay": {"module": "TraceSet", "gen": "set", "fixed": True},     # every operation in every state of MCSet
    "wire": {"module": "TraceClient"},      # the default fetcher and a real HTTP server
    "timing": {"module": "TraceClient", "per": 3},   # documents that expire while a client is in use
    "set": {"module": "TraceSet"},          # the trusted metadata set, any order of operations
    "paths": {"module": "TracePaths"},
    "glob": {"module": "TracePaths", "fixed": True},     # all short patterns
    "target": {"module": "TraceTarget"},
    "multi": {"module": "TraceMulti"},
    "multireplay": {"module": "TraceMulti", "gen": "multi", "fixed": True},   # every map and every answer of MCMulti
    "multireplayAll": {"module": "TraceMulti", "driver": "multireplay", "gen": "multiAll", "fixed": True},
    "targetreplay": {"module": "TraceTarget", "gen": "target", "fixed": True},   # every operation in every state of MCTarget
    "walkreplay": {"module": "TraceClient", "gen": "walkWide", "fixed": True},     # delegation graphs of MCWalk
    "walkreplayAll": {"module": "TraceClient", "driver": "walkreplay", "gen": "walkWideAll", "fixed": True},
    "fetchreplay": {"module": "TraceFetch", "gen": "fetch", "fixed": True},   # every answer of MCFetch
    "keys": {"module": "TraceKeys"},
    "keysreplay": {"module": "TraceKeys", "gen": "keysGen", "fixed": True},      # behaviours of MCKeys
    "keysreplayAll": {"module": "TraceKeys", "driver": "keysreplay", "gen": "keysGenAll", "fixed": True},
    "codec": {"module": "TraceCodec"},
    "fetch": {"module": "TraceFetch"},
}
MODELS = {
    "client": {"module": "MCClient", "cfg": "MCClientGen"},        # one session, two calls
    "client2": {"module": "MCClient", "cfg": "MCClientGen2"},      # two sessions, small limits
    "clientTime": {"module": "MCClient", "cfg": "MCClient2"},      # two sessions, time passes between them
    "client3": {"module": "MCClient", "cfg": "MCClient3"},         # three sessions from an empty cache
    "honestSmall": {"module": "MCHonest", "cfg": "MCHonestSmall", "workers": 3},
    "honest": {"module": "MCHonest", "workers": 8},                # every cache of a correct repository's clients
    "honestLife": {"module": "MCHonest", "cfg": "MCHonestLife"},   # crashes at every step, two releases
    "shareGen": {"module": "MCShare", "cfg": "MCShareGen", "workers": 3},
    "shareGenAll": {"module": "MCShare", "cfg": "MCShareGenAll", "workers": 6},
    "share": {"module": "MCShare"},                                # others change any file at any step
    "shareDeep": {"module": "MCShare", "cfg": "MCShareDeep"},
    "twoGen": {"module": "MCTwo", "cfg": "MCTwoGen", "cut": "$^", "workers": 4},     # two clients, taking turns at requests
    "two": {"module": "MCTwo"},                                    # two clients, taking turns at every step
    "twoDeep": {"module": "MCTwo", "cfg": "MCTwoDeep"},
    "set": {"module": "MCSet", "cut": r',{"[pz]":', "first": r'"z":[12]}', "workers": 2},    # the trusted set by itself
    "walk": {"module": "MCWalk"},
    "walkDeep": {"module": "MCWalk", "cfg": "MCWalkDeep", "cut": "$^", "workers": 4},
    "walkWide": {"module": "MCWalk", "cfg": "MCWalkWide", "cut": "$^", "workers": 3, "seeded": True},
    "walkWideAll": {"module": "MCWalk", "cfg": "MCWalkWideAll", "cut": "$^", "workers": 6, "seeded": True},
    "store": {"module": "MCStore"},
    "storeAny": {"module": "MCStore", "cfg": "MCStoreAny"},
    "keys": {"module": "MCKeys", "cfg": "MCKeysSmall"},
    "keysGen": {"module": "MCKeys", "cfg": "MCKeysGen", "cut": "$^", "workers": 3},
    "keysGenAll": {"module": "MCKeys", "cfg": "MCKeysGenAll", "cut": "$^", "workers": 6},
    "keysAll": {"module": "MCKeys"},
    "fetch": {"module": "MCFetch", "cut": "$^"},
    "target": {"module": "MCTarget", "cut": r",{\"", "workers": 1},
    "match": {"module": "MCMatch", "cfg": "MCMatchSmall"},
    "matchAll": {"module": "MCMatch"},
    "multi": {"module": "MCMulti", "cut": "$^", "workers": 3},           # two mappings over three repositories
    "multiAll": {"module": "MCMulti", "cfg": "MCMultiAll", "cut": "$^", "workers": 8},
    "multiDeep": {"module": "MCMulti", "cfg": "MCMultiDeep"},          # three mappings over two repositories
    "clientAll": {"module": "MCClient", "cfg": "MCClientAll"},     # one session, every cache
}

# property -> families: {name: (scenarios quick, scenarios thorough)}
PROPS = {
    "C01": {"families": {"set": (2400, 40000), "client": (1200, 20000), "keys": (800, 10000), "lib": (160, 2000)}},
    "C02": {"families": {"set": (2800, 40000), "client": (2000, 30000)}},
    "C03": {"families": {"set": (2800, 40000), "client": (2000, 30000), "timing": (12, 120)}},
    "C04": {"families": {"set": (2400, 40000), "client": (1200, 20000), "timing": (40, 400)}},
    "C05": {"families": {"set": (2800, 40000), "client": (2000, 30000)}},
    "C06": {"families": {"set": (2800, 40000), "client": (2000, 30000)}},
    "C07": {"families": {"set": (2800, 40000), "client": (1600, 20000)}},
    "C08": {"families": {"client": (2000, 20000), "damage": (800, 8000), "store": (1000, 10000)}},
    "C09": {"families": {"store": (3200, 40000), "client": (800, 8000)}},
    "C10": {"families": {"damage": (3200, 40000)}},
    "C11": {"families": {"honest": (1600, 20000), "lib": (800, 10000), "set": (800, 10000), "codec": (800, 10000)}},
    "C12": {"families": {"client": (2000, 20000), "honest": (1200, 20000), "paths": (800, 10000)}},
    "C13": {"families": {"paths": (3200, 60000), "glob": (160, 4681), "client": (1200, 20000)}},
    "C14": {"families": {"client": (2800, 40000), "fetch": (160, 2000)}},
    "C15": {"families": {"client": (1200, 20000), "wire": (800, 8000), "target": (800, 10000), "fetch": (800, 10000)}},
    "C16": {"families": {"client": (2000, 20000), "wire": (800, 8000), "fetch": (800, 10000)}},
    "C17": {"families": {"target": (4000, 60000), "multi": (800, 10000)}},
    "C18": {"families": {"client": (2400, 30000), "target": (2400, 30000)}},
    "C19": {"families": {"client": (1200, 20000), "store": (800, 10000), "target": (2000, 20000), "multi": (400, 6000)}},
    "C20": {"families": {"offline": (3200, 40000), "target": (400, 4000)}},
    "C21": {"families": {"multi": (3200, 40000), "target": (800, 8000)}},
    "C22": {"families": {"multi": (3200, 40000)}},
    "C23": {"families": {"multi": (3200, 40000)}},
    "C24": {"families": {"keys": (4800, 80000), "lib": (160, 2000)}},
    "C25": {"families": {"keys": (4000, 60000), "codec": (400, 8000), "lib": (160, 2000)}},
    "C26": {"families": {"codec": (3200, 40000), "keys": (1200, 20000), "lib": (160, 2000)}},
    "C27": {"families": {"codec": (2400, 30000), "client": (800, 10000), "set": (800, 10000), "multi": (400, 6000), "paths": (400, 6000),
                         "keys": (400, 6000), "target": (400, 6000), "fetch": (80, 1000)}},
    "C28": {"families": {"paths": (4800, 80000), "client": (400, 6000)}},
    "C29": {"families": {"target": (5600, 80000)}},
    "C30": {"families": {"set": (3200, 50000), "fetch": (240, 3000), "target": (800, 8000), "keys": (800, 8000)}},
    "C31": {"families": {"target": (5600, 80000)}},
}
for p in "C02 C03 C04 C05 C06 C07 C08 C10 C12 C14 C16 C20".split():
    PROPS[p]["families"].update({"replay": (800, 12000), "replay2": (0, 20000)})
    PROPS[p]["models"] = {"quick": [], "thorough": ["clientTime", "client3", "clientAll"]}
for p in "C01 C02 C03 C04 C05 C06 C07 C30".split():
    PROPS[p]["families"]["setreplay"] = (700, 12000)
for p in ("C10", "C11"):
    PROPS[p]["families"].update({"cache": (900, 0), "cacheAll": (0, 40000), "life": (75, 75)})
for p in ("C21", "C22"):
    PROPS[p]["families"].update({"multireplay": (1600, 0), "multireplayAll": (0, 40000)})
    PROPS[p]["models"] = {"quick": [], "thorough": ["multiDeep"]}


def models(p, quick, thorough=()):
    m = PROPS[p].setdefault("models", {"quick": [], "thorough": []})
    m["quick"] += list(quick)
    m["thorough"] += list(quick) + list(thorough)


models("C12", ["walk"], ["walkDeep"])
for p in ("C01", "C12", "C13", "C14"):
    PROPS[p]["families"].update({"walkreplay": (700, 12000), "walkreplayAll": (0, 20000)})
for p in ("C24", "C25"):
    PROPS[p]["families"].update({"keysreplay": (1600, 8000), "keysreplayAll": (0, 40000)})
models("C09", ["store", "storeAny"])
models("C08", [], ["store", "storeAny"])
models("C24", ["keys"], ["keysAll"])
models("C25", [], ["keysAll"])
models("C01", [], ["keysAll"])
models("C13", [], ["match", "matchAll"])
models("C28", ["match"], ["matchAll"])
PROPS["C32"] = {"families": {"share": (1600, 30000), "sharereplay": (1200, 0), "sharereplayAll": (0, 17000), "tworeplay": (270, 270), "crowd": (400, 4000)}}
models("C32", [], ["share", "shareDeep", "two", "twoDeep"])
models("C08", [], ["share"])
for p in ("C15", "C16", "C30"):
    PROPS[p]["families"]["fetchreplay"] = (105, 420)
for p in ("C17", "C19", "C29"):
    PROPS[p]["families"]["targetreplay"] = (1200, 30000)
NOT_APPLICABLE = {}
for p in PROPS:
    PROPS[p].setdefault("note", "TLC validates traces recorded from the real code against the TLA+ specification; sampled executions, every event checked.")
