"""What each check runs: bounded models (TLC), families of scenarios on the real code, and the
trace specification that judges them. Numbers: (quick, thorough)."""
import random
import fam, funs

# general families that every message property also gets
def general(q):
    return [("packets", lambda r, th: fam.packets(r, q * (12 if th else 1))),
            ("histories", lambda r, th: fam.histories(r, q * (12 if th else 1))),
            ("after decoding", lambda r, th: fam.afterdecode(r, q // 2 * (12 if th else 1)))]


def F(fn, q, t, **kw):
    return lambda r, th: fn(r, t if th else q, **kw)


def A(fn):
    return lambda r, th: fn(r)


def N(fn):
    return lambda r, th: fn()


FAM = {
    "garbage": F(fam.garbage, 600, 20000), "nested": F(fam.nested, 200, 5000), "prefixes": F(fam.prefixes, 250, 4000),
    "streams": F(fam.streams, 400, 6000), "every cut": F(fam.everycut, 3, 40), "property blocks": F(fam.propblocks, 900, 15000),
    "each property": A(fam.eachprop), "property texts": A(fam.proptexts), "field texts": A(fam.fieldtexts), "property maps": F(fam.propmaps, 700, 10000), "buffers": F(fam.buffers, 450, 6000),
    "versions": F(fam.versions, 500, 8000), "code sweep": A(fam.codesweep), "identifiers": lambda r, th: fam.ids(r, 1)[0],
    "publishes": F(fam.publishes, 600, 8000), "connects": F(fam.connects, 500, 7000), "clones": F(fam.clones, 400, 5000),
    "buffer reuse": F(fam.scribbles, 1000, 12000), "topic lists": F(fam.topiclists, 250, 2500), "sizes": lambda r, th: fam.sizes(r, th),
    "creation": N(fam.creates), "mixed": F(fam.mixes, 150, 2500), "parallel": F(fam.pars, 60, 800),
    "long packets": F(fam.longs, 90, 900), "huge packets": lambda r, th: fam.huges(r, [1 << 19, 1 << 20, 1 << 21] if th else [1 << 19]), "long garbage": F(fam.longgarbage, 150, 1500), "long packets reused": F(fam.longs, 300, 3000), "lists": F(fam.lists, 60, 900), "shared memory": F(fam.shared, 300, 4000), "readers": F(fam.readers, 120, 1500),
    "payloads": lambda r, th: fam.powers(r, th),
}
FUN = {
    "codes": N(funs.codes_all), "types": N(funs.types_all), "property table": A(funs.props_all), "options": N(funs.opts_all),
    "topics": lambda r, th: funs.topics(r, 6 if th else 5, 40000 if th else 2500), "texts": lambda r, th: funs.texts(r, *((60000, 60000) if th else (3000, 3000))),
    "length prefixes": lambda r, th: funs.lpfields(r, 8000 if th else 500), "authorization": lambda r, th: funs.auths(r, 6000 if th else 400),
    "numbers": lambda r, th: funs.numbers(r, th), "wordings": lambda r, th: funs.wordings(r, th), "descriptors": lambda r, th: funs.descriptors(r, 6000 if th else 400), "configurations": lambda r, th: funs.configs(r, 12000 if th else 800), "expiries": lambda r, th: funs.expiries(r, 12000 if th else 900),
    "identifier sweep": lambda r, th: fam.ids(r, 99 if th else 6)[1],
}

# a little of every family, for the message properties: what breaks one of them may need a scenario made for another
SHARE = 0.06
WIRE = ["C%02d" % i for i in list(range(1, 16)) + [21, 23, 24]]
NOT_SHARED = {"huge packets", "long garbage", "payloads", "parallel", "mixed", "readers", "shared memory", "creation", "every cut", "streams"}


def shared(prop, r, thorough):
    if prop not in WIRE: return []
    own = CHECKS[prop][1]
    sc = []
    for n, fn in sorted(FAM.items()):
        if n in own or n in NOT_SHARED: continue
        x = fn(random.Random(r.random()), False)
        sc += [dict(s, fam=n) for s in r.sample(x, max(4, int(len(x) * (0.3 if thorough else SHARE))))]
    return sc


# id -> general scenarios, families, function families
CHECKS = {
    "C01": (250, ["garbage", "nested", "prefixes", "property blocks", "each property", "long packets", "long garbage", "huge packets"], []),
    "C02": (120, ["prefixes", "streams", "every cut", "garbage", "long packets"], []),
    "C03": (700, ["property blocks", "each property", "topic lists", "code sweep", "connects", "long packets", "lists", "payloads"], ["numbers"]),
    "C04": (700, ["garbage", "property blocks", "property texts", "field texts", "code sweep", "identifiers", "connects"], []),
    "C05": (500, ["versions", "publishes", "connects", "property maps", "topic lists", "sizes", "long packets", "lists", "payloads"], ["numbers"]),
    "C06": (300, ["buffers", "property maps"], []),
    "C07": (150, ["property maps", "versions", "each property", "lists"], ["property table", "numbers"]),
    "C08": (150, ["property blocks", "each property", "property texts", "long packets", "lists"], ["property table", "numbers"]),
    "C09": (300, ["versions", "creation", "property maps"], []),
    "C10": (200, ["code sweep", "versions"], ["codes"]),
    "C11": (150, ["topic lists", "publishes", "field texts"], ["topics", "texts"]),
    "C12": (100, ["connects", "long packets"], ["numbers"]),
    "C13": (250, ["identifiers", "publishes"], ["identifier sweep"]),
    "C14": (150, ["publishes"], ["options"]),
    "C15": (0, ["clones"], []),
    "C16": (0, ["publishes", "clones"], ["expiries"]),
    "C19": (0, [], ["configurations"]),
    "C20": (0, [], ["authorization"]),
    "C21": (0, ["buffer reuse", "long packets reused"], []),
    "C22": (0, ["mixed", "parallel", "shared memory", "readers"], []),
    "C23": (120, ["topic lists", "code sweep", "long packets", "lists"], ["options"]),
    "C24": (150, ["sizes", "buffers", "long packets"], []),
    "C25": (60, ["creation"], ["types"]),
    "C26": (0, [], ["length prefixes"]),
    "C27": (0, [], ["descriptors"]),
    "C28": (0, [], ["wordings"]),
}
